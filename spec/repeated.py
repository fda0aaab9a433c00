"""Repeated local alignment"""
from daeso.string.waterman_eggert import (make_matrix, find_best_score, trace_alignment,
                                          recalculate_matrix, max_score)

COSTS = {"sim_score()": "f", "gap_cost()": "f"}


@of("daeso.string.waterman_eggert.recalculate_matrix", props=["C62"], hints=COSTS,
    types={"alignment": "list[tuple]"}, opaque=("max_score",))
def recalculate(seq1, seq2, scores, sim_score, gap_cost, alignment):
    for i, j in alignment:
        scores[i + 1, j + 1] = (0, "T")
        for k in range(i + 2, len(seq1) + 1):
            new = max_score(seq1, seq2, k, j + 1, scores, sim_score, gap_cost)
            if new == scores[k, j + 1]:
                break
            scores[k, j + 1] = new
        for k in range(j + 2, len(seq2) + 1):
            new = max_score(seq1, seq2, i + 1, k, scores, sim_score, gap_cost)
            if new == scores[i + 1, k]:
                break
            scores[i + 1, k] = new


@of("daeso.string.waterman_eggert.waterman_eggert", props=["C62"], hints={"limit": "n"},
    opaque=("make_matrix", "find_best_score", "trace_alignment", "recalculate_matrix"),
    pure=("find_best_score",), events=("call",),
    rets={"daeso.string.waterman_eggert.make_matrix": "dict[tuple]",
          "daeso.string.waterman_eggert.trace_alignment": "list"})
def waterman_eggert(seq1, seq2, sim_score, gap_cost, limit=None):
    scores = make_matrix(seq1, seq2, sim_score, gap_cost)
    tables = []
    found = []
    while not limit or len(found) < limit:
        best_score, best_pair = find_best_score(seq1, seq2, scores)
        if not best_score:
            break
        alignment = trace_alignment(scores, best_pair)
        tables.append(scores.copy())
        found.append(alignment[:])
        recalculate_matrix(seq1, seq2, scores, sim_score, gap_cost, alignment)
    return tables, found
