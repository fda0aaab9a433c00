"""Sequence alignment by dynamic programming: the recurrence of the score
matrix and the path traced back through the recorded steps"""
import math
from daeso.string.lcs import longest_common_subsequence
from daeso.string.levenshtein import levenshtein

# similarities and costs are numbers
COSTS = {"sim_score()": "f", "gap_cost()": "f"}


def step(scores, i, j):
    """the cell reached by undoing the step recorded in (i, j)"""
    move = scores[i, j][1]
    if move == "U":
        return i - 1, j
    if move == "D":
        return i - 1, j - 1
    if move == "L":
        return i, j - 1
    return i, j


@of("daeso.string.needleman_wunsch.needleman_wunsch", props=["C62"], hints=COSTS)
def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
    scores = {(0, 0): (0, "T")}
    for i in range(1, len(seq1) + 1):
        scores[i, 0] = (gap_cost(seq1[i - 1]) + scores[i - 1, 0][0], "U")
    for j in range(1, len(seq2) + 1):
        scores[0, j] = (gap_cost(seq2[j - 1]) + scores[0, j - 1][0], "L")
    for i in range(1, len(seq1) + 1):
        for j in range(1, len(seq2) + 1):
            scores[i, j] = max(
                (scores[i, j - 1][0] + gap_cost(seq2[j - 1]), "L"),
                (scores[i - 1, j][0] + gap_cost(seq1[i - 1]), "U"),
                (scores[i - 1, j - 1][0] + sim_score(seq1[i - 1], seq2[j - 1]), "D"))
    i = len(seq1)
    j = len(seq2)
    alignment = []
    while i + j > 0:
        if scores[i, j][1] == "D":
            alignment.insert(0, (i - 1, j - 1))
        i, j = step(scores, i, j)
    return scores, alignment


@of("daeso.string.lcs.longest_common_subsequence", props=["C62"])
def lcs(seq1, seq2):
    size = {}
    for i in range(len(seq1) + 1):
        for j in range(len(seq2) + 1):
            if i == 0 or j == 0:
                size[i, j] = 0
            elif seq1[i - 1] == seq2[j - 1]:
                size[i, j] = 1 + size[i - 1, j - 1]
            else:
                size[i, j] = max(size[i - 1, j], size[i, j - 1])
    i = len(seq1)
    j = len(seq2)
    found = []
    while size[i, j]:
        while size[i, j] == size[i - 1, j]:
            i -= 1
        while size[i, j] == size[i, j - 1]:
            j -= 1
        i -= 1
        j -= 1
        found.append(seq1[i])
    found.reverse()
    if type(seq1) == type(seq2) == type(""):
        return "".join(found)
    if type(seq1) == type(seq2) == type(()):
        return tuple(found)
    return found


@of("daeso.string.lcs.normalized_lcs", props=["C62"], opaque=("longest_common_subsequence",))
def normalized_lcs(seq1, seq2):
    if not seq1 or not seq2:
        return 0.0
    return len(longest_common_subsequence(seq1, seq2)) / math.sqrt(len(seq1) * len(seq2))


@of("daeso.string.levenshtein.levenshtein", props=["C62"])
def edit_distance(s1, s2):
    if len(s1) > len(s2):
        s1, s2 = s2, s1
    row = range(len(s1) + 1)
    for i in range(1, len(s2) + 1):
        above, row = row, [i] + [0] * len(s1)
        for j in range(1, len(s1) + 1):
            change = above[j - 1]
            if s1[j - 1] != s2[i - 1]:
                change = change + 1
            row[j] = min(change, above[j] + 1, row[j - 1] + 1)
    return row[len(s1)]


@of("daeso.string.levenshtein.normalized_levenshtein", props=["C62"], opaque=("levenshtein",))
def normalized_levenshtein(s1, s2):
    if not s1 and not s2:
        return 0.0
    return levenshtein(s1, s2) / max(len(s1), len(s2))


@of("daeso.string.smith_waterman.smith_waterman", props=["C62"], hints=COSTS)
def smith_waterman(seq1, seq2, sim_score, gap_cost):
    scores = {(0, 0): (0, "T")}
    for i in range(1, len(seq1) + 1):
        scores[i, 0] = (0, "U")
    for j in range(1, len(seq2) + 1):
        scores[0, j] = (0, "L")
    for i in range(1, len(seq1) + 1):
        for j in range(1, len(seq2) + 1):
            scores[i, j] = best(seq1, seq2, i, j, scores, sim_score, gap_cost)
    ends = sorted([(score, cell) for cell, score in scores.items() if score[0] > 0])
    i, j = ends[-1][1]
    return scores, path(scores, i, j)


def best(seq1, seq2, i, j, scores, sim_score, gap_cost):
    return max((scores[i - 1, j][0] + gap_cost(seq1[i - 1]), "U"),
               (scores[i - 1, j - 1][0] + sim_score(seq1[i - 1], seq2[j - 1]), "D"),
               (scores[i, j - 1][0] + gap_cost(seq2[j - 1]), "L"),
               (0, "T"))


def path(scores, i, j):
    alignment = []
    while scores[i, j][0] > 0:
        if scores[i, j][1] == "D":
            alignment.insert(0, (i - 1, j - 1))
        i, j = step(scores, i, j)
    return alignment


@of("daeso.string.waterman_eggert.trace_alignment", props=["C62"])
def trace_alignment(scores, pair):
    return path(scores, pair[0], pair[1])


@of("daeso.string.waterman_eggert.max_score", props=["C62"], hints=COSTS)
def max_score(seq1, seq2, i, j, scores, sim_score, gap_cost):
    return best(seq1, seq2, i, j, scores, sim_score, gap_cost)


@of("daeso.string.waterman_eggert.make_matrix", props=["C62"], hints=COSTS)
def make_matrix(seq1, seq2, sim_score, gap_cost):
    scores = {(0, 0): (0, "T")}
    for i in range(1, len(seq1) + 1):
        scores[i, 0] = (0, "U")
    for j in range(1, len(seq2) + 1):
        scores[0, j] = (0, "L")
    for i in range(1, len(seq1) + 1):
        for j in range(1, len(seq2) + 1):
            scores[i, j] = best(seq1, seq2, i, j, scores, sim_score, gap_cost)
    return scores


@of("daeso.string.waterman_eggert.find_best_score", props=["C62"])
def find_best_score(seq1, seq2, scores):
    top, cell = 0, (len(seq1) + 2, len(seq2) + 2)
    for pair, score in scores.items():
        if score[0] < top:
            continue
        # of equal scores the one nearest to the start, of these the first row
        if score[0] == top and (sum(cell) < sum(pair) or
                                sum(cell) == sum(pair) and cell[0] < pair[0]):
            continue
        top, cell = score[0], pair
    return top, cell

