"""n-grams, padding and skip bigrams (docstrings of string/ngram.py, sgram.py)"""
import sys


@of("daeso.string.ngram.pad", types={"tokens": "tuple"}, rule="pad tuple")
def pad_tuple(tokens, pad_size, pad_string="_"):
    return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)


@of("daeso.string.ngram.pad", types={"tokens": "list"}, rule="pad list")
def pad_list(tokens, pad_size, pad_string="_"):
    return pad_size * [pad_string] + tokens + pad_size * [pad_string]


@of("daeso.string.ngram.pad", types={"tokens": "str"}, rule="pad string")
def pad_string(tokens, pad_size, pad_string="_"):
    return pad_size * pad_string + tokens + pad_size * pad_string


@of("daeso.string.ngram.n_gram_slices", types={"tokens": "list"})
def n_gram_slices(tokens, n, pad_size=0, pad_string="_"):
    padded = pad_list(tokens, pad_size, pad_string)
    return [padded[i:i + n] for i in range(0, len(padded) + 1 - n)]


@of("daeso.string.ngram.n_gram_strings", types={"tokens": "list"})
def n_gram_strings(tokens, n, pad_size=0, pad_string="_", separator=" "):
    padded = pad_list(tokens, pad_size, pad_string)
    return [separator.join(padded[i:i + n]) for i in range(0, len(padded) + 1 - n)]


@of("daeso.string.ngram.n_gram_slices_range", types={"tokens": "list"})
def n_gram_slices_range(tokens, n_range, pad=False, pad_sizes=None, pad_string="_"):
    d = {}
    if pad:
        if pad_sizes:
            assert len(n_range) == len(pad_sizes)
            for i in range(len(n_range)):
                d[n_range[i]] = n_gram_slices(tokens, n_range[i], pad_sizes[i], pad_string)
        else:
            for n in n_range:
                d[n] = n_gram_slices(tokens, n, n - 1, pad_string)
    else:
        for n in n_range:
            d[n] = n_gram_slices(tokens, n, 0, pad_string)
    return d


@of("daeso.string.sgram.skip_bigram_slices", hints={"distance_limit": "n"})
def skip_bigram_slices(tokens, distance_limit=sys.maxint):
    return [(tokens[i], t) for i in range(len(tokens))
            for t in tokens[i + 1:i + 2 + distance_limit]]


@of("daeso.string.sgram.padded_skip_bigram_slices", types={"tokens": "list"}, hints={"distance_limit": "n"})
def padded_skip_bigram_slices(tokens, distance_limit=sys.maxint, pad_string="_"):
    return skip_bigram_slices(pad_list(tokens, 1, pad_string), distance_limit)
