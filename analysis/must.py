"""Interprocedural event sets: which calls and assignments certainly (or possibly) happened, with canonical argument paths.

An event is a tuple (name, object path or None, argument paths ...), assignments are ("=", lhs, rhs). Paths are normalised (dereference steps
dropped); elements of containers that are visited by a loop appear as `container[each]`, provided that the loop handles every element.
Events of helper functions and of lambdas that are called directly are included, with their parameters replaced by the arguments."""
import re
from .guards import ctx_of, norm, strip_targs
from .paths import loop_bodies

VAR = re.compile(r"[A-Za-z_0-9]+@\d+:\d+")


_counted = {}


def counted(fn):
    """index variables of counting loops: variable -> (start path, exclusive bound path)"""
    r = _counted.get(id(fn))
    if r is not None:
        return r
    r = _counted[id(fn)] = {}
    c = ctx_of(fn)
    start = {}
    for n in fn.walk():
        if n.k == "decl":
            for v, i in n.d.get("vars", ()):
                if i >= 0 and fn.decls[v].kind == "var" and not c.is_stable(v):
                    start[c.var_id(v)] = norm(c.path(fn.nodes[i]))
    for b in (fn.cfg.blocks.values() if fn.cfg is not None else ()):
        if b.cond is None or b.tk not in ("ForStmt", "WhileStmt", "DoStmt"):
            continue
        for x in fn.nodes[b.cond].walk():
            if x.k == "bin" and x.op in ("<", "!=", ">"):
                p, q = norm(c.path(x.child(0))), norm(c.path(x.child(1)))
                if x.op == ">":
                    p, q = q, p
                m = re.match(r"\(([A-Za-z_0-9]+@\d+:\d+) \+ (\w+)\)$", p or "")
                if m and q is not None:
                    p, q = m.group(1), "(%s - %s)" % (q, m.group(2))
                if p in start and p not in r:
                    r[p] = (start[p], q)
    return r


class Must:
    def __init__(self, prog, maxdepth=8, kill=None, keep=None, maxnodes=2500, may=False, opaque=None):
        self.prog = prog
        self.maxdepth = maxdepth
        self.kill = kill          # kill(event) -> predicate on events that are forgotten, or None
        self.keep = keep          # keep(event) -> bool: events that are recorded
        self.maxnodes = maxnodes
        self.opaque = opaque or (lambda f: False)
        self._sum = {}
        self._in = {}
        self._busy = set()
        self._cut = set()
        self._weak = {}
        self._each = {}

    # ---- container elements -------------------------------------------------
    def each_map(self, fn):
        """loop variable (as in paths) -> container path; index variables map to None"""
        r = self._each.get(fn.usr)
        if r is not None:
            return r
        r = self._each[fn.usr] = ({}, set())
        c = ctx_of(fn)
        its, idx = r
        for n in fn.walk():
            if n.k == "decl":
                for v, i in n.d.get("vars", ()):
                    if i < 0:
                        continue
                    d = fn.decls[v]
                    if d.kind != "var":
                        continue
                    init = fn.nodes[i]
                    if c.is_stable(v) and not d.name.startswith("__begin"):
                        continue
                    x = init
                    while x is not None and x.k == "cast":
                        x = x.child(0)
                    if x is not None and x.k == "call" and x.d.get("ck") == "ctor" and len(x.args) == 1:
                        x = x.args[0]
                    while x is not None and x.k == "cast":
                        x = x.child(0)
                    if x is not None and x.k == "call" and x.name in ("begin", "cbegin"):
                        o = x.obj if x.obj is not None else (x.args[0] if x.args else None)
                        p = c.path(o)
                        if p:
                            its[c.var_id(v)] = p
                    elif x is not None and x.k == "cast" or x is not None and x.d.get("t", "") in (
                            "int", "unsigned int", "unsigned long", "long", "size_t", "unsigned short", "unsigned char"):
                        b = counted(fn).get(c.var_id(v))
                        if b is not None and b[0] == "0" and b[1] is not None and not re.search(r" [-+*/] ", b[1]):
                            idx.add(c.var_id(v))
                    elif d.name.startswith("__begin") and x is not None:
                        p = c.path(x)
                        if p:
                            its[c.var_id(v)] = p[:-2] if p.endswith(".&") else p
        return r

    def canon(self, fn, p):
        if p is None:
            return None
        its, idx = self.each_map(fn)
        if its:
            for _ in range(3):
                q = VAR.sub(lambda m: its[m.group(0)] + "[each]" if m.group(0) in its else m.group(0), p)
                if q == p:
                    break
                p = q
        if idx:
            p = re.sub(r"\[(%s)\]" % "|".join(re.escape(i) for i in idx), "[each]", p) if any(i in p for i in idx) else p
        return norm(p)

    # ---- events ---------------------------------------------------------------
    def own(self, fn, n):
        c = ctx_of(fn)
        C = lambda x: self.canon(fn, c.path(x))
        if n.k == "call":
            if n.d.get("ck") == "ctor":
                return ("ctor:" + strip_targs(n.d.get("cls", "")), None) + tuple(C(a) for a in n.args)
            if n.d.get("ck") == "op" and n.op == "=":
                return ("=", C(n.obj), C(n.args[0]) if n.args else None)
            if n.d.get("ck") == "op" and n.op in ("++", "--", "+=", "-=", "|=", "&=") and n.obj is not None:
                return (n.op, C(n.obj)) + tuple(C(a) for a in n.args)
            nm = n.name if n.obj is not None else strip_targs(n.q)
            if not nm.startswith("std::"):
                nm = nm.rsplit("::", 1)[-1]
            if not nm and n.fnexpr is not None:
                return ("()", C(n.fnexpr)) + tuple(C(a) for a in n.args)
            return (nm, C(n.obj) if n.obj is not None else None) + tuple(C(a) for a in n.args)
        if n.k == "bin" and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            return (n.op, C(n.child(0)), C(n.child(1)))
        if n.k == "un" and n.op in ("++", "--"):
            return (n.op, C(n.child(0)))
        return None

    def events(self, fn, n, depth=0):
        """events certainly performed by the evaluation of element n"""
        e = self.own(fn, n)
        out = set()
        if e is None:
            return out
        if self.keep is None or self.keep(e):
            out.add(e)
        if n.k == "call":
            acc = None
            for t in self.prog.targets(n):
                if self.opaque(t):
                    acc = set()
                    break
                s = {x for x in (self.subst(fn, n, t, ev) for ev in self.summary(t, depth + 1)) if x is not None}
                acc = s if acc is None else acc & s
            if acc:
                out |= acc
        return out

    def subst(self, fn, call, t, ev):
        c = ctx_of(fn)
        m = {}
        tc = ctx_of(t)
        for p, a in zip(t.params, call.args):
            m[tc.var_id(p.id)] = self.canon(fn, c.path(a)) if a is not None else None
        lam = t.flag("lam")
        thisp = None
        if call.obj is not None and not lam:
            thisp = self.canon(fn, c.path(call.obj))

        def sub(x):
            if not isinstance(x, str):
                return x
            if "@" in x:
                def rp(mo):
                    g = mo.group(0)
                    if g in m:
                        return m[g] if m[g] is not None else "?"
                    return g
                x = VAR.sub(rp, x)
            if not lam and "this" in x and thisp != "this":
                x = re.sub(r"(?<![\w.@])this\b(?=\.|$|\)|\[|,| )", lambda _: thisp if thisp is not None else "?", x)
            return x
        return (ev[0],) + tuple(sub(x) for x in ev[1:])

    def summary(self, fn, depth=0):
        """events that happened whenever fn returns"""
        if fn.usr in self._sum:
            return self._sum[fn.usr]
        if fn.cfg is None or len(fn.d["nodes"]) > self.maxnodes:
            return frozenset()
        if fn.usr in self._busy or depth > self.maxdepth:
            self._cut.add(fn.usr)
            return frozenset()
        self._busy.add(fn.usr)
        outer, self._cut = self._cut, set()
        try:
            ins = self.solve(fn, depth)
            r = ins.get(fn.cfg.exit)
            r = frozenset() if r is None else r
        finally:
            self._busy.discard(fn.usr)
        self._cut.discard(fn.usr)
        if not self._cut or depth == 0:
            self._sum[fn.usr] = r
        else:
            # incomplete because of recursion or the depth limit: valid in this context only
            self._in.pop(fn.usr, None)
            fn.__dict__.pop("_must_%d" % id(self), None)
            self._weak[fn.usr] = self._weak.get(fn.usr, 0) + 1
            if self._weak[fn.usr] > 12:
                self._sum[fn.usr] = r
        self._cut |= outer
        return r

    def flow(self, fn, st, elems, depth):
        for e in elems:
            if isinstance(e, list):
                continue
            n = fn.nodes[e]
            if n is None:
                continue
            ev = self.elem_events(fn, n, depth)
            if not ev:
                continue
            if self.kill is not None:
                for x in ev:
                    k = self.kill(x)
                    if k is not None:
                        st = frozenset(y for y in st if not k(y))
            st = st | ev
        return st

    def elem_events(self, fn, n, depth):
        memo = fn.__dict__.setdefault("_must_%d" % id(self), {})
        r = memo.get(n.id)
        if r is None:
            r = memo[n.id] = frozenset(self.events(fn, n, depth))
        return r

    def loop_events(self, fn, depth):
        """header block -> events over [each] that every iteration performs, for loops that are only left through their header"""
        out = {}
        cfg = fn.cfg
        for h, body, backs in loop_bodies(fn):
            early = False
            for b in body:
                if b == h or cfg.blocks[b].noreturn:
                    continue
                for s in cfg.blocks[b].succ:
                    if s >= 0 and s not in body and not cfg.blocks[s].noreturn:
                        early = True
            if early and not any(b == h for b, _ in backs):
                # do-while style or break: only accept when the exit is the condition of the loop
                continue
            IN = {h: frozenset()}
            order = [b for b in cfg.rpo() if b in body]
            for _ in range(6):
                ch = False
                for b in order:
                    if b not in IN or cfg.blocks[b].noreturn:
                        continue
                    st = self.flow(fn, IN[b], cfg.blocks[b].elems, depth) | frozenset(out.get(b, ()))
                    for s in cfg.blocks[b].succ:
                        if s in body and s != h:
                            new = st if s not in IN else IN[s] & st
                            if s not in IN or new != IN[s]:
                                IN[s] = new
                                ch = True
                if not ch:
                    break
            acc = None
            for b, i in backs:
                if b not in IN:
                    continue
                st = self.flow(fn, IN[b], cfg.blocks[b].elems, depth) | frozenset(out.get(b, ()))
                acc = st if acc is None else acc & st
            out[h] = {e for e in (acc or ()) if any(isinstance(x, str) and "[each]" in x for x in e[1:])}
        return out

    def solve(self, fn, depth=0):
        r = self._in.get(fn.usr)
        if r is not None:
            return r
        cfg = fn.cfg
        order = cfg.rpo()
        le = self.loop_events(fn, depth)
        IN = {cfg.entry: frozenset()}
        for _ in range(30):
            ch = False
            for b in order:
                if b not in IN:
                    continue
                blk = cfg.blocks[b]
                if blk.noreturn:
                    continue
                st = self.flow(fn, IN[b], blk.elems, depth)
                if b in le:
                    st = st | frozenset(le[b])
                for s in blk.succ:
                    if s < 0:
                        continue
                    new = st if s not in IN else IN[s] & st
                    if s not in IN or new != IN[s]:
                        IN[s] = new
                        ch = True
            if not ch:
                break
        self._in[fn.usr] = IN
        return IN

    def at(self, fn, n):
        """events that happened before node n on every path"""
        from .paths import position
        p = position(fn, n)
        if p is None:
            return frozenset()
        self.summary(fn)
        IN = self.solve(fn)
        st = IN.get(p[0])
        if st is None:
            return None
        return self.flow(fn, st, fn.cfg.blocks[p[0]].elems[:p[1]], 0)

    def returns(self, fn):
        """[(return node, events before it)]"""
        out = []
        for n in fn.walk():
            if n.k == "return":
                st = self.at(fn, n)
                if st is not None:
                    out.append((n, st))
        return out


class May(Must):
    """all events of a function and its helpers"""

    def all(self, fn, depth=0, stack=()):
        key = fn.usr
        if key in self._sum:
            return self._sum[key]
        if fn.usr in stack or depth > self.maxdepth:
            return frozenset()
        out = set()
        for n in fn.walk():
            e = self.own(fn, n)
            if e is None:
                continue
            if self.keep is None or self.keep(e):
                out.add(e)
            if n.k == "call":
                for t in self.prog.targets(n):
                    if self.opaque(t) or len(t.d["nodes"]) > self.maxnodes:
                        continue
                    for ev in self.all(t, depth + 1, stack + (fn.usr,)):
                        out.add(self.subst(fn, n, t, ev))
        if not stack:
            self._sum[key] = frozenset(out)
        return frozenset(out)
