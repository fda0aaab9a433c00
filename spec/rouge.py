"""ROUGE scores (docstrings of string/rouge.py; Lin 2004)"""
import sys
from daeso.string.lcs import longest_common_subsequence


def n_grams(tokens, n):
    return [tokens[i:i + n] for i in range(0, len(tokens) + 1 - n)]


def f_measure(precision, recall, beta):
    if beta ** 2 * precision + recall == 0:
        return 0
    return (1 + beta ** 2) * precision * recall / (beta ** 2 * precision + recall)


@of("daeso.string.rouge.count_match")
def count_match(candidate_ngrams, reference_ngrams):
    return sum(1 for g in candidate_ngrams if g in reference_ngrams)


@of("daeso.string.rouge.rouge_ngram")
def rouge_ngram(candidate_ngrams, reference_ngrams):
    if not reference_ngrams:
        return 0.0
    return count_match(candidate_ngrams, reference_ngrams) / len(reference_ngrams)


@of("daeso.string.rouge.rouge_n", types={"candidate_tokens": "list",
                                         "reference_tokens_list": "list[list]"})
def rouge_n(candidate_tokens, reference_tokens_list, n):
    refs = [g for tokens in reference_tokens_list for g in n_grams(tokens, n)]
    return rouge_ngram(n_grams(candidate_tokens, n), refs)


@of("daeso.string.rouge.rouge_skip_bigram", hints={"beta": "i"})
def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
    if not skip_bigrams1 or not skip_bigrams2:
        return 0
    match = len(set(skip_bigrams1) & set(skip_bigrams2))
    return f_measure(match / len(skip_bigrams2), match / len(skip_bigrams1), beta)


def skip_bigrams(tokens, distance_limit):
    return [(tokens[i], t) for i in range(len(tokens))
            for t in tokens[i + 1:i + 2 + distance_limit]]


@of("daeso.string.rouge.rouge_s", hints={"beta": "i", "distance_limit": "n"})
def rouge_s(tokens1, tokens2, distance_limit=sys.maxint, beta=1):
    return rouge_skip_bigram(skip_bigrams(tokens1, distance_limit),
                             skip_bigrams(tokens2, distance_limit), beta)


@of("daeso.string.rouge.rouge_su", hints={"beta": "i", "distance_limit": "n"},
    types={"tokens1": "tuple", "tokens2": "tuple"})
def rouge_su(tokens1, tokens2, distance_limit=sys.maxint, beta=1, marker="_"):
    return rouge_s((marker,) + tokens1, (marker,) + tokens2, distance_limit, beta)


@of("daeso.string.rouge.rouge_l", hints={"beta": "i"}, opaque=("longest_common_subsequence",))
def rouge_l(candidate_tokens, reference_tokens, beta=1):
    common = len(longest_common_subsequence(candidate_tokens, reference_tokens))
    if not candidate_tokens or not reference_tokens:
        return 0
    return f_measure(common / len(candidate_tokens), common / len(reference_tokens), beta)
