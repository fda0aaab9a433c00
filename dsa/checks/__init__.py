CHECKS = {}


def check(pid, title, level="other"):
    def deco(fn):
        CHECKS[pid] = (title, level, fn)
        return fn
    return deco


from . import text, corpus, graph, structure, tools, evaluate, texts      # noqa
