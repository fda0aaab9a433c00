"""The command-line tools."""
from . import check
from .. import tools


@check("C70", "options")
def opts(ctx):
    """Each declared option compared with the documented one; every declared option is
    read, every option read is declared; and each tool compared with a reference of what
    it does with its options."""
    base = tools.baseline()
    for name in sorted(base):
        ctx.need(name)
    for name, mod in sorted(ctx.prog.mods.items()):
        if name.startswith("bin."):
            declared(ctx, mod, base.get(name, []))
    ctx.specs("tools")


def declared(ctx, mod, base):
    opts, why = tools.options(ctx.prog, mod)
    pos = [o for o in opts if o["positional"]]
    flags = {f: o for o in opts if not o["positional"] for f in o["flags"]}
    bpos = [b for b in base if b["positional"]]
    for b in base:
        what = "%s %s" % (mod.name, "/".join(b["flags"]))
        if b["positional"]:
            i = bpos.index(b)
            o = pos[i] if i < len(pos) else None
        else:
            o = next((flags[f] for f in b["flags"] if f in flags), None)
        if o is None:
            if why:
                ctx.maybe("declared", what, why[0])
            else:
                ctx.bad("declared", what, "the documented option is not declared", (mod.rel, 1))
            continue
        loc = (mod.rel, o["line"])
        lost = [] if b["positional"] else [f for f in b["flags"] if f not in o["flags"]]
        bad = ["no longer spelled " + f for f in lost]
        maybe = []
        for k in ("action", "nargs", "type", "choices", "default", "const", "required"):
            x, y = o.get(k), b.get(k)
            if x == y:
                continue
            if k == "required" and not x == y and o["positional"]:
                continue
            if any(isinstance(v, str) and v.startswith("<") for v in (x, y)) and not (
                    k == "type" and (x in (None, "<int>", "<float>", "<str>"))):
                maybe.append("%s is %s" % (k, x))
            else:
                bad.append("%s is %r, documented as %r" % (k, x, y))
        if bad:
            ctx.bad("declared", what, "; ".join(bad), loc)
        elif maybe:
            ctx.maybe("declared", what, "; ".join(maybe))
        else:
            ctx.ok("declared", what)
    use(ctx, mod, opts, why)


def use(ctx, mod, opts, why):
    """declared <=> read"""
    read, whole, base = tools.reads(mod)
    if not opts:
        return
    for o in opts:
        what = "%s %s" % (mod.name, o["dest"])
        if whole or o["dest"] in base or o["action"] in ("version", "help"):
            ctx.ok("used", what)
        else:
            ctx.bad("used", what, "the option is declared but nothing reads it",
                    (mod.rel, o["line"]))
    dests = {o["dest"] for o in opts}
    for name, line in sorted(read):
        what = "%s args.%s" % (mod.name, name)
        if name in dests or name.startswith("_"):
            ctx.ok("read", what)
        elif why:
            ctx.maybe("read", what, why[0])
        else:
            ctx.bad("read", what, "no option of that name is declared", (mod.rel, line))


@check("C71", "files written by the tools")
def writes(ctx):
    """The calls of each tool that write, replace, rename or delete files, with the
    conditions under which they are made, compared with a reference."""
    ctx.specs("tools")
    ctx.at_least("files", 15)


@check("C73", "split and join")
def parts(ctx):
    """The calls made by the splitting and joining tools compared with a reference,
    and the slices and concatenation of corpora they rely on."""
    ctx.specs("tools")
    ctx.specs("corpus")
