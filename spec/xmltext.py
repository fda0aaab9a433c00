"""Writing XML"""
import sys
import daeso.utils.etree
from daeso.utils.etree import indent


@of("daeso.utils.etree.write", props=["C23"], events=("call", "write"), opaque=("indent", "write"))
def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
    if not hasattr(file, "write"):
        with open(file, "wb") as f:
            daeso.utils.etree.write(etree, f, encoding, pprint)
        return
    if pprint:
        indent(etree.getroot())
    file.write('<?xml version="1.0" encoding="' + encoding + '"?>\n')
    etree.write(file, encoding, xml_declaration=False)


def blank(text):
    return not text or not text.strip()


@of("daeso.utils.etree.indent", props=["C23"], events=("call", "write"), hints={"level": "n"},
    types={"elem": "xml.etree.ElementTree.Element"}, opaque=("indent",))
def indented(elem, level=0):
    pad = "\n" + level * "  "
    if len(elem):
        if blank(elem.text):
            elem.text = pad + "  "
        for e in elem:
            indent(e, level + 1)
        if blank(e.tail):
            e.tail = pad
    if level and blank(elem.tail):
        elem.tail = pad
