"""Helpers shared by the rule modules."""
from .absint import V
from .facts import AnalysisBroken

ANON = "(anonymous namespace)::"


def fns(prog, q):
    return [f for f in prog.fns.values() if f.q.replace(ANON, "") == q and f.cfg is not None]


def one(prog, q):
    fs = fns(prog, q)
    if not fs:
        raise AnalysisBroken("%s not found" % q)
    return fs[0]


def chk(rep, rule, where, cond, msg, key=""):
    if where is None:
        loc, name = "src", ""
    else:
        loc, name = where.loc, where.q.replace(ANON, "") if hasattr(where, "usr") else ""
    rep.check(bool(cond), rule, loc, (name + " " + str(key)).strip(), msg)


def this(cls):
    return V("o", ty=cls, path="this")


def values(prog, t):
    if t not in prog.enums:
        raise AnalysisBroken("enum %s not found" % t)
    return {k: int(v) for k, v in prog.enums[t]["c"]}


def users(prog, q, setter=None):
    """(function, call) of every call of the function q; setter: only calls with (True) or without (False) arguments"""
    out = []
    for f in prog.fns.values():
        if f.cfg is None:
            continue
        for n in f.calls():
            if n.q == q and (setter is None or bool([a for a in n.args if a is not None]) == setter):
                out.append((f, n))
    return out


def home(prog, f):
    """the named function a lambda belongs to"""
    if f.name != "operator()":
        return f
    best = None
    for g in prog.fns.values():
        if g.file == f.file and g.name != "operator()" and g.line <= f.line <= (g.endline or g.line) and (best is None or g.line > best.line):
            best = g
    return best or f


def rules(rep, doc):
    import re
    for line in re.findall(r"(?:Rules: |\. )([a-z-]+): ([^.]*)", doc.replace("\n", " ")):
        rep.rule(*line)
