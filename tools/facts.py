# Run with Jython: writes dsa/facts.json, the names that the installed
# standard library and networkx define (attributes of modules and classes,
# signatures of functions written in Python).
#   . /opt/jy/env.sh; PYTHONPATH=/opt/jy/lib jython2 tools/facts.py OUT
import sys, json, inspect, types
import __builtin__

MODS = """__builtin__ sys os os.path glob math string xml.etree.cElementTree
xml.etree.ElementTree warnings copy zipfile weakref time pickle cPickle networkx
networkx.convert cStringIO StringIO xml.parsers.expat distutils.version collections
itertools functools operator re tempfile shutil codecs io random subprocess logging
textwrap json types inspect traceback datetime contextlib optparse argparse getopt
unittest decimal fractions locale struct heapq bisect errno stat fnmatch pprint csv
UserDict UserList __future__ gc signal threading numbers
""".split()


def sig(f):
    skip = 0
    if inspect.isclass(f):
        try:
            f = f.__init__
        except AttributeError:
            return None
        skip = 1
    if isinstance(f, types.MethodType):
        f = f.im_func
    if not isinstance(f, types.FunctionType):
        return None
    try:
        a = inspect.getargspec(f)
    except TypeError:
        return None
    names = a.args[skip:]
    nd = len(a.defaults or ())
    return [[n if isinstance(n, str) else "?" for n in names], nd, bool(a.varargs),
            bool(a.keywords)]


def members(o):
    out = {}
    for n in dir(o):
        try:
            x = getattr(o, n)
        except Exception:
            continue
        s = sig(x)
        out[n] = s
    return out


def main(out):
    res = {}
    for name in MODS:
        try:
            __import__(name)
        except ImportError:
            continue
        m = sys.modules[name]
        d = {}
        for n in dir(m):
            try:
                x = getattr(m, n)
            except Exception:
                d[n] = {"kind": "value"}
                continue
            e = {"kind": "value"}
            if inspect.isclass(x):
                e["kind"] = "class"
                e["exc"] = isinstance(x, type) and issubclass(x, BaseException) or \
                    isinstance(x, types.ClassType) and False
                if e["exc"]:
                    e["bases"] = [b.__name__ for b in x.__mro__]
                e["members"] = sorted(dir(x))
                e["msig"] = dict((k, s) for k, s in members(x).items() if s)
            elif inspect.ismodule(x):
                e["kind"] = "module"
                e["name"] = x.__name__
            elif callable(x):
                e["kind"] = "function"
            s = sig(x)
            if s:
                e["sig"] = s
            d[n] = e
        res[name] = d
    # attributes of instances that the constructors set
    inst = {}
    import networkx, optparse, xml.etree.ElementTree as ET, zipfile, StringIO
    inst["networkx.DiGraph"] = sorted(dir(networkx.DiGraph()))
    inst["networkx.Graph"] = sorted(dir(networkx.Graph()))
    inst["xml.etree.ElementTree.Element"] = sorted(dir(ET.Element("x")))
    inst["xml.etree.ElementTree.ElementTree"] = sorted(dir(ET.ElementTree()))
    inst["str"] = sorted(dir(""))
    inst["list"] = sorted(dir([]))
    inst["dict"] = sorted(dir({}))
    inst["set"] = sorted(dir(set()))
    inst["tuple"] = sorted(dir(()))
    inst["unicode"] = sorted(dir(u""))
    inst["file"] = sorted(dir(sys.stdout)) + ["softspace"]
    inst["Exception"] = sorted(dir(Exception("x")))
    json.dump({"modules": res, "instances": inst}, open(out, "w"), indent=0, sort_keys=True)


main(sys.argv[1])
