"""Reference definitions of the set-similarity coefficients (docstrings)."""
import math


@of("daeso.string.similar.type_match")
def type_match(seq1, seq2):
    return len(set(seq1) & set(seq2))


@of("daeso.string.similar.token_match")
def token_match(seq1, seq2):
    return sum(1 for t in seq1 if t in seq2)


@of("daeso.string.similar.sym_token_match")
def sym_token_match(seq1, seq2):
    return (token_match(seq1, seq2) + token_match(seq2, seq1)) / 2.0


@of("daeso.string.similar.cosine")
def cosine(seq1, seq2):
    if not seq1 or not seq2:
        return 0.0
    return len(set(seq1) & set(seq2)) / math.sqrt(len(seq1) * len(seq2))


@of("daeso.string.similar.tanimoto")
def tanimoto(seq1, seq2):
    if not seq1 and not seq2:
        return 0.0
    common = len(set(seq1) & set(seq2))
    return common / (len(seq1) + len(seq2) - common)


@of("daeso.string.similar.dice")
def dice(seq1, seq2):
    if not seq1 and not seq2:
        return 0.0
    return 2 * len(set(seq1) & set(seq2)) / (len(seq1) + len(seq2))


@of("daeso.string.similar.jaccard")
def jaccard(seq1, seq2):
    if not seq1 and not seq2:
        return 0.0
    return len(set(seq1) & set(seq2)) / len(set(seq1) | set(seq2))


@of("daeso.string.similar.overlap_min")
@of("daeso.string.similar.overlap")
def overlap_min(seq1, seq2):
    if not seq1 or not seq2:
        return 0.0
    return len(set(seq1) & set(seq2)) / min(len(seq1), len(seq2))


@of("daeso.string.similar.overlap_max")
def overlap_max(seq1, seq2):
    if not seq1 and not seq2:
        return 0.0
    return len(set(seq1) & set(seq2)) / max(len(seq1), len(seq2))


@of("daeso.string.similar.generalized_cosine", props=["C66"])
def generalized_cosine(sequences):
    if not sequences:
        return 0.0
    common, product = set(sequences[0]), len(sequences[0])
    for seq in sequences[1:]:
        common = common & set(seq)
        product = product * len(seq)
    if not product:
        return 0.0
    return len(common) / math.sqrt(product)


@of("daeso.string.similar.generalized_dice", props=["C66"])
def generalized_dice(sequences):
    if not sequences:
        return 0.0
    common = set(sequences[0])
    for seq in sequences[1:]:
        common = common & set(seq)
    total = sum([len(seq) for seq in sequences])
    if not total:
        return 0.0
    return len(sequences) * len(common) / total


@of("daeso.string.similar.generalized_jaccard", props=["C66"])
def generalized_jaccard(sequences):
    if not sequences:
        return 0.0
    common, union = set(sequences[0]), set(sequences[0])
    for seq in sequences[1:]:
        common = common & set(seq)
        union = union | set(seq)
    if not union:
        return 0.0
    return len(common) / len(union)
