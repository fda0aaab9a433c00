"""Numbers spelled out in Dutch words, by groups of three digits"""
from daeso.string.number import _digit_triple_to_words

GROUPS = ("", "duizend ", " miljoen ", " miljard ", " biljoen ", " biljard ", " triljoen ",
          " triljard ")


@of("daeso.string.number.spell_out_number", props=["C67"], hints={"n": "n"},
    opaque=("_digit_triple_to_words",))
def spelled_out(n, prefer_hundreds=True):
    digits = str(n)
    if len(digits) == 4 and digits[1] != "0" and prefer_hundreds:
        return (_digit_triple_to_words("0" + digits[:2]) + "honderd" +
                _digit_triple_to_words("0" + digits[2:]))
    words = ""
    group = 0
    while digits:
        triple = digits[-3:].rjust(3, "0")
        if triple == "000":
            if not n:
                words = "nul"
        elif group == 1 and triple == "001":
            words = GROUPS[group] + words
        else:
            words = _digit_triple_to_words(triple) + GROUPS[group] + words
        digits = digits[:-3]
        group += 1
    return words.strip()


_WORDS = {
    "000": "", "001": "een", "002": "twee", "003": "drie", "004": "vier", "005": "vijf",
    "006": "zes", "007": "zeven", "008": "acht", "009": "negen", "010": "tien", "011": "elf",
    "012": "twaalf", "013": "dertien", "014": "veertien", "015": "vijftien", "016": "zestien",
    "017": "zeventien", "018": "achttien", "019": "negentien", "020": "twintig",
    "030": "dertig", "040": "veertig", "050": "vijftig", "060": "zestig", "070": "zeventig",
    "080": "tachtig", "090": "negentig"}


@of("daeso.string.number._digit_triple_to_words", props=["C67"], hints={"digits": "s"},
    opaque=("_digit_triple_to_words",))
def words_of(digits):
    if digits in _WORDS:
        return _WORDS[digits]
    hundreds, tens, ones = digits
    if hundreds != "0":
        words = ""
        if hundreds != "1":
            words = _WORDS["00" + hundreds]
        return words + "honderd" + _digit_triple_to_words("0" + tens + ones)
    words = ""
    if ones != "0":
        words += _WORDS["00" + ones] + "en"
    if tens != "0":
        words += _WORDS["0" + tens + "0"]
    return words
