"""Runs one function under fixed answers of some observers and returns, for each path on which it returns, the result and the calls it made in order."""
import re
from .absint import Interp, V, integer, obj
from .guards import strip_targs


def clean(p):
    p = (p or "").replace("<>(", "(")
    for _ in range(4):
        q = re.sub(r"\.ptr_\b|\.get\(\)|\.operator[- >*]*\(\)|\.operator tiro::[\w:<>* ]+\(\)|\.\*", "", p)
        q = re.sub(r"(?:tiro::)?(?:guaranteed_not_null|NotNull(?:<[^{}()]*>)?)[({]([^{},]*)(?:,[^{}()]*)?[)}]", r"\1", q)
        if q == p:
            break
        p = q
    return p


def yes(v=True):
    return V("b", pred=bool(v))


class Scenario:
    """fixed: name -> value | callable(node, object, args, state) -> value | list of values | None; watch: names of calls to record; follow: functions whose body is
    entered (default: same file)"""

    def __init__(self, prog, fixed=None, watch=(), follow=None, maxpaths=6000, into=None, peel=1):
        self.prog, self.fixed, self.watch = prog, fixed or {}, watch
        self.into = into or (lambda t: False)      # watched functions that are entered as well
        self.maxpaths = maxpaths
        self.peel = peel
        self.follow = follow

    def run(self, fn, args=None, this=None, state=None):
        follow = self.follow or (lambda t: t.relfile == fn.relfile or t.name == "get" and t.relfile.endswith("not_null.hpp"))
        it = Interp(self.prog, opaque=lambda t: not follow(t), intercept=self.intercept, maxpaths=self.maxpaths, peel=self.peel)
        it.enter = follow
        it.ondtor = self.ondtor
        self.it = it
        out = []
        for v, st in it.run(fn, args, this, state):
            out.append((v, st.mem.get(("ev",), ()), st))
        return out

    def ondtor(self, it, fn, fr, d, st):
        st.env.pop((fr, d), None)

    def path(self, v, st=None):
        if v is None:
            return ""
        if v.kind == "b":
            t = v.pred if isinstance(v.pred, bool) else self.it.decide(v, st) if st is not None else None
            if t is not None:
                return str(t).lower()
        if v.kind == "i" and v.lo == v.hi:
            return str(v.lo)
        return clean(self.it.pathof(v))

    def truth(self, st, path):
        """True, False or None: what is known on the path about the condition `path`"""
        return self.it.decide(self.it.observe("bool(%s)" % path, "bool"), st)

    def intercept(self, it, fn, n, q, o, av, st):
        name = n.name
        hit = self.watch(n, q) if callable(self.watch) else name in self.watch
        if n.d.get("ck") == "ctor" and not hit and q not in self.fixed:
            if "NotNull<" in (n.type or "") and av:
                return [(av[-1], st)]
            return None
        if q.startswith("tiro::detail::debug_check_null") and av:
            return [(next((a for a in av if not (self.path(a).startswith(('"', "tiro::SourceLocation")))), av[-1]), st)]
        f = self.fixed.get(q, self.fixed.get(name))
        if callable(f):
            f = f(n, o, av, st)
        if f is None:
            if not hit:
                return None
            if not self.enter(n):
                f = V("v") if (n.type or "") == "void" else it.fresh(n.type, "%s#%d" % (name, len(st.mem.get(("ev",), ()))))
        fs = f if isinstance(f, list) else [f]
        if not hit:
            return [(x, st.copy() if i else st) for i, x in enumerate(fs)]
        ev = st.mem.get(("ev",), ())
        where, args = self.path(o, st), tuple(self.path(a, st) for a in av)
        if f is None:
            st.mem[("ev",)] = ev + ((name, where, args, ""),)
            return None
        out = []
        sts = [st] + [st.copy() for _ in fs[1:]]
        for x, s in zip(fs, sts):
            s.mem[("ev",)] = ev + ((name, where, args, self.path(x, s) if x.kind != "v" else ""),)
            out.append((x, s))
        return out

    def enter(self, n):
        return any(self.into(t) for t in self.prog.targets(n) if t.cfg is not None)
