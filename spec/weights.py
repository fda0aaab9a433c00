"""Term weighting"""
import math
from daeso.string.tf_idf import (calculate_document_frequencies,
                                 calculate_term_frequencies)


@of("daeso.string.tf_idf.calculate_document_frequencies", props=["C65"])
def document_frequencies(term_freq_per_doc):
    df = {}
    for freq in term_freq_per_doc:
        for term in freq:
            df[term] = df.get(term, 0) + 1
    return df


@of("daeso.string.tf_idf.calculate_term_frequencies", props=["C65"])
def term_frequencies(terms_per_doc):
    seen = {}
    per_doc = []
    for doc in terms_per_doc:
        freq = {}
        for term in doc:
            seen[term] = True
            freq[term] = freq.get(term, 0) + 1
        per_doc.append(freq)
    return sorted(seen), per_doc


@of("daeso.string.tf_idf.idf", props=["C65"],
    opaque=("calculate_document_frequencies",))
def idf(terms_per_doc, normalized=False):
    terms, freqs = calculate_term_frequencies(terms_per_doc)
    df = calculate_document_frequencies(freqs)
    n = float(len(terms_per_doc))
    norm = math.log(n) if normalized else 1
    return terms, [[math.log(n / df[term]) / norm for term in terms] for _ in terms_per_doc]


@of("daeso.string.tf_idf.tf_idf", props=["C65"],
    opaque=("calculate_document_frequencies",))
def tf_idf(terms_per_doc, normalized=False, indicator=False):
    terms, freqs = calculate_term_frequencies(terms_per_doc)
    df = calculate_document_frequencies(freqs)
    n = float(len(terms_per_doc))
    norm = math.log(n) if normalized else 1
    return terms, [[weight(term, doc, freq, indicator) * (math.log(n / df[term]) / norm)
                    for term in terms]
                   for doc, freq in zip(terms_per_doc, freqs)]


def weight(term, doc, freq, indicator):
    if indicator:
        return float(term in doc)
    if not doc:
        return 0.0
    return freq.get(term, 0) / len(doc)
