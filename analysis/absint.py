"""Abstract interpretation of small functions over intervals.

Integers are intervals (with excluded points), floats are intervals with a NaN flag, everything else is an opaque symbolic object whose
observers return the same unknown value every time they are asked.  Branch conditions refine the values they compare; the paths through
a function are kept apart (trace partitioning), loops are entered with every variable they assign set to an unknown value, which covers
any number of iterations.  Helper functions, lambdas and functors with a body are followed.  Nothing is executed and no solver is used.
"""
import itertools
import math
import re

from .guards import ctx_of, strip_targs
from .paths import Switch, loop_bodies
from .consteval import Eval

WIDTH = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
         "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
         "unsigned long long": (64, False), "char32_t": (32, False), "char16_t": (16, False), "wchar_t": (32, True), "std::byte": (8, False)}
FLOATS = {"double", "float", "long double"}
INF = math.inf
_ids = itertools.count(1)


def bare(t):
    t = (t or "").strip()
    ch = True
    while ch:
        ch = False
        for pre in ("const ", "volatile "):
            if t.startswith(pre):
                t = t[len(pre):]
                ch = True
        for suf in (" &&", " &", "&&", "&", " const"):
            if t.endswith(suf):
                t = t[:-len(suf)].strip()
                ch = True
    return t


def limits(ty):
    w = WIDTH.get(bare(ty))
    if w is None:
        return None
    b, s = w
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class V:
    """abstract value: kind i (integer), f (float), b (boolean with predicate), s (opaque object), o (object with fields), l (lambda), v (void)"""
    __slots__ = ("kind", "id", "lo", "hi", "nan", "ty", "pred", "path", "sym", "fn", "env", "fid")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.id = next(_ids)
        self.lo = self.hi = self.nan = self.ty = self.pred = self.path = self.sym = self.fn = self.env = self.fid = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        if self.kind == "i":
            return "int[%s,%s]" % (self.lo, self.hi)
        if self.kind == "f":
            return "float[%s,%s%s]" % (self.lo, self.hi, " nan" if self.nan else "")
        if self.kind == "b":
            return "bool(%s)" % (self.pred,)
        return "%s(%s)" % (self.kind, self.path)


def term(v):
    if v.sym is None and v.kind == "i" and v.lo == v.hi:
        return str(v.lo)
    return v.sym


def combine(op, a, b):
    x, y = term(a), term(b)
    if x is None or y is None or a.sym is None and b.sym is None or len(x) + len(y) > 300:
        return None
    return "(%s %s %s)" % (x, op, y)


def wrapped(ty, sym):
    if sym is None:
        return None
    b, s = WIDTH[bare(ty)]
    return "conv_%s%d(%s)" % ("i" if s else "u", b, sym)


def integer(lo, hi, ty="long", sym=None):
    return V("i", lo=lo, hi=hi, ty=ty, sym=sym)


def flt(lo=-INF, hi=INF, nan=True, sym=None):
    return V("f", lo=lo, hi=hi, nan=nan, ty="double", sym=sym)


def obj(path, ty=None):
    return V("s", path=path, ty=ty)


def null():
    return V("s", path="nullptr", ty="std::nullptr_t")


def nonnull(path, ty=None, kind="s"):
    return V(kind, path=path, ty=ty, env="nonnull")


class State:
    __slots__ = ("env", "mem", "rng", "vals", "alias")

    def __init__(self):
        self.env = {}      # (frame, decl) -> value
        self.mem = {}      # (object id, field) -> value
        self.rng = {}      # value id -> (lo, hi, excluded frozenset, nan)
        self.vals = {}     # (frame, node) -> value of an evaluated expression
        self.alias = {}    # (frame, decl) -> location

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.rng = dict(self.rng)
        s.vals = dict(self.vals)
        s.alias = dict(self.alias)
        return s

    def range(self, v):
        r = self.rng.get(v.id)
        if r is None:
            return (v.lo, v.hi, frozenset(), bool(v.nan))
        return r


MATH = {x + s for x in ("fmod", "remainder", "pow", "floor", "ceil", "trunc", "round", "fabs", "sqrt", "exp", "log", "sin", "cos", "tan", "fmin", "fmax", "fdim", "hypot", "atan2",
                        "fma", "rint", "nearbyint", "copysign") for s in ("", "f", "l")}


class Budget(Exception):
    pass


NEGOP = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


class Interp:
    def __init__(self, prog, hook=None, opaque=None, maxpaths=4000, maxdepth=14, intercept=None, peel=0):
        self.prog = prog
        self.hook = hook or (lambda *a: None)
        self.opaque = opaque or (lambda fn: False)
        self.maxpaths = maxpaths
        self.intercept = intercept or (lambda *a: None)
        self.peel = peel           # iterations of a loop followed exactly before the widened one
        self.maxdepth = maxdepth
        self.enter = lambda t: False
        self.ondtor = None
        self.onhavoc = None
        self.lochook = None
        self.cur = (0, None)
        self.interned = {}
        self.paths = 0
        self.frames = itertools.count(1)
        self.visited = set()

    # ---- public -------------------------------------------------------------------------------------------------------------
    def run(self, fn, args=None, this=None, state=None):
        """[(result value or None, state)] of every path on which fn returns"""
        st = state or State()
        self.paths = 0
        if args is None:
            args = [self.fresh(p.type, p.name) for p in fn.params]
        if this is None and fn.cls:
            this = obj("this", fn.cls)
        return self.call_fn(fn, list(args), [None] * len(args), this, st, 0)

    def fresh(self, ty, path=None, sym=None):
        t = bare(ty)
        if t == "bool":
            return V("b", pred=None, path=path)
        lm = limits(t)
        if lm:
            return integer(lm[0], lm[1], t, sym)
        if t in FLOATS:
            return flt(sym=sym)
        e = self.prog.enums.get(t)
        if e is not None:
            u = [int(v) for _, v in e["c"]]
            return integer(min(u) if u else 0, max(u) if u else 0, t, sym) if u else integer(0, 0, t)
        return obj(path or "?%d" % next(_ids), t)

    def observe(self, key, ty):
        """the unknown but fixed value of an observer"""
        v = self.interned.get(key)
        if v is None:
            v = self.interned[key] = self.fresh(ty, key)
        return v

    # ---- functions ----------------------------------------------------------------------------------------------------------
    def call_fn(self, fn, args, locs, this, st, depth, closure=None):
        fr = next(self.frames)
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else self.fresh(p.type, p.name)
            l = locs[i] if i < len(locs) else None
            if l is not None and p.type.rstrip().endswith("&"):
                st.alias[(fr, p.id)] = l
            else:
                st.env[(fr, p.id)] = a
        if closure is not None:
            for di, d in enumerate(fn.decls):
                if d.key in closure:
                    kind, x = closure[d.key]
                    if kind == "loc":
                        st.alias[(fr, di)] = x
                    else:
                        st.env[(fr, di)] = x
        self.visited.add(fn.usr)
        return self.walk(fn, fr, this, st, depth)

    def walk(self, fn, fr, this, st, depth, start=None, stop=frozenset()):
        cfg = fn.cfg
        out = []
        loops = {h: body for h, body, _ in loop_bodies(fn)}
        work = [(cfg.entry if start is None else start, st, frozenset())]
        while work:
            b, st, active = work.pop()
            if b in stop:
                out.append((V("v"), st))
                continue
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Budget(fn.q)
            if b in loops:
                if (b, -1) in active:
                    continue      # covered by the widened visit
                done = [k for h, k in active if h == b]
                k = (done[0] if done else 0) + 1
                active = frozenset(x for x in active if x[0] != b)
                if k > self.peel:
                    active |= {(b, -1)}
                    self.havoc(fn, fr, this, loops[b], st)
                    if self.onhavoc is not None:
                        self.onhavoc(self, fn, b, st)
                else:
                    active |= {(b, k)}
                    self.stale(fn, fr, loops[b], st)
            active = frozenset(h for h in active if b in loops[h[0]])
            blk = cfg.blocks[b]
            states = [st]
            done = False
            for e in blk.elems:
                if isinstance(e, list):
                    if e[0] == "init" and this is not None:
                        nn = []
                        for s in states:
                            for v, s2 in self.ev(fn, fn.nodes[e[2]], fr, this, s, depth):
                                if this.kind == "o":
                                    s2.mem[(this.id, e[1].rsplit("::", 1)[-1])] = v
                                nn.append(s2)
                        states = nn
                    elif e[0] == "dtor":
                        states = self.destroy(fn, fr, this, e[1], states, depth)
                    continue
                n = fn.nodes[e]
                if n is None:
                    continue
                if n.k == "return":
                    c = n.child(0)
                    rest = [x for x in blk.elems[blk.elems.index(e) + 1:] if isinstance(x, list) and x[0] == "dtor"]
                    for s in states:
                        for v, s2 in [(V("v"), s)] if c is None else self.ev(fn, c, fr, this, s, depth):
                            ss = [s2]
                            for x in rest:
                                ss = self.destroy(fn, fr, this, x[1], ss, depth, False)
                            out += [(v, s3) for s3 in ss]
                    done = True
                    break
                if n.k == "throw":
                    done = True
                    break
                if n.k in ("ref", "fnref", "member", "lit", "this", "str", "enum", "nullptr", "zero"):
                    continue
                nn = []
                for s in states:
                    for v, s2 in self.step(fn, n, fr, this, s, depth):
                        if v is not None:
                            s2.vals[(fr, n.id)] = v
                        nn.append(s2)
                states = nn
                if not states:
                    break
            if done or not states:
                continue
            if blk.noreturn:
                continue
            if b == cfg.exit:
                for s in states:
                    out.append((V("v"), s))
                continue
            for s in states:
                for nb, s2 in self.branch(fn, blk, fr, this, s, depth):
                    if nb == cfg.exit and not any(not isinstance(x, list) for x in cfg.blocks[nb].elems):
                        out.append((V("v"), s2))
                    else:
                        work.append((nb, s2, active))
        return out

    def destroy(self, fn, fr, this, d, states, depth, notify=True):
        """the end of the life of a local variable: scope guards run their function"""
        out = []
        decl = fn.decls[d] if d is not None and 0 <= d < len(fn.decls) else None
        guard = decl is not None and (decl.type or "").startswith(("tiro::ScopeExit<", "tiro::ScopeSuccess<", "ScopeExit<", "ScopeSuccess<"))
        for s in states:
            v = s.env.get((fr, d)) if guard else None
            if v is not None and v.kind == "l" and v.fn and v.fn[0].cfg is not None and depth < self.maxdepth:
                out += [s2 for _, s2 in self.call_fn(v.fn[0], [], [], v.fid, s, depth + 1, closure=v.env)]
            else:
                out.append(s)
        if notify and self.ondtor is not None:
            for s in out:
                self.ondtor(self, fn, fr, d, s)
        return out

    def stale(self, fn, fr, body, st):
        """forget the values of the expressions evaluated by the previous iteration"""
        for b in body:
            for e in fn.cfg.blocks[b].elems:
                if not isinstance(e, list):
                    st.vals.pop((fr, e), None)
                    n = fn.nodes[e]
                    if n is not None and n.k in ("bin", "cond"):
                        st.vals.pop((fr, "arm", e), None)
            for n in fn.nodes:
                if n is not None and n.k in ("bin", "cond"):
                    st.vals.pop((fr, "arm", n.id), None)

    def havoc(self, fn, fr, this, body, st):
        """forget everything assigned inside the loop"""
        for b in body:
            for e in fn.cfg.blocks[b].elems:
                if isinstance(e, list):
                    continue
                n = fn.nodes[e]
                if n is None:
                    continue
                st.vals.pop((fr, n.id), None)
                targets = []
                if n.k == "bin" and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                    targets.append(n.child(0))
                elif n.k == "un" and n.op in ("++", "--"):
                    targets.append(n.child(0))
                elif n.k == "un" and n.op == "&":
                    targets.append(n.child(0))
                elif n.k == "call":
                    pt = n.d.get("pt") or []
                    for i, a in enumerate(n.args):
                        targets.append(a)
                    if n.obj is not None:
                        targets.append(n.obj)
                elif n.k == "decl":
                    for v, i in n.d.get("vars", ()):
                        st.env.pop((fr, v), None)
                for t in targets:
                    while t is not None and t.k == "cast":
                        t = t.child(0)
                    if t is None or t.k not in ("ref", "member", "index"):
                        continue
                    if n.k == "call" and t.k == "ref" and t is not n.obj:
                        # only arguments bound to non const references
                        i = [a for a in n.args].index(t) if t in n.args else -1
                        pt = n.d.get("pt") or []
                        if not (0 <= i < len(pt) and pt[i].endswith("&") and not pt[i].startswith("const ")):
                            if pt or not self.ref_param(n, i):
                                continue
                    l = self.loc(fn, t, fr, this, st)
                    if l is not None:
                        self.forget(l, st)

    def ref_param(self, call, i):
        ts = self.prog.targets(call)
        if not ts:
            return True
        for t in ts:
            if 0 <= i < len(t.params) and t.params[i].type.endswith("&") and not t.params[i].type.startswith("const "):
                return True
        return False

    def forget(self, l, st):
        old = self.load(l, st)
        if old is None:
            return
        if old.kind == "o":
            for k in list(st.mem):
                if k[0] == old.id:
                    self.forget(("m",) + k, st)
            return
        if old.kind in ("i", "f", "b"):
            self.store(l, self.fresh(old.ty or "bool"), st)
        elif old.kind == "s":
            self.store(l, obj("?%d" % next(_ids), old.ty), st)

    # ---- locations ----------------------------------------------------------------------------------------------------------
    def loc(self, fn, n, fr, this, st):
        while n is not None and (n.k == "cast" and n.d.get("ck") in (None, "NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase") or n.k == "un" and n.op == "*"
                                 and False):
            n = n.child(0)
        if n is None:
            return None
        if self.lochook is not None:
            l = self.lochook(self, fn, n, fr, this, st)
            if l is not None:
                return l
        if n.k == "ref" and n.decl >= 0:
            a = st.alias.get((fr, n.decl))
            if a is not None:
                return a
            return ("e", fr, n.decl)
        if n.k == "member":
            c = n.child(0)
            if c is None or c.k == "this":
                if this is not None and this.kind == "o":
                    return ("m", this.id, n.name)
                return None
            bl = self.loc(fn, c, fr, this, st)
            base = self.load(bl, st) if bl is not None else st.vals.get((fr, c.id))
            if base is not None and base.kind == "o":
                return ("m", base.id, n.name)
            return None
        if n.k == "un" and n.op == "*":
            c = n.child(0)
            while c is not None and c.k == "cast":
                c = c.child(0)
            if c is not None and c.k == "un" and c.op == "&":
                return self.loc(fn, c.child(0), fr, this, st)
        if n.k == "call" and strip_targs(n.q) in ("std::forward", "std::move") and n.args:
            return self.loc(fn, n.args[0], fr, this, st)
        return None

    def load(self, l, st):
        if l is None:
            return None
        if l[0] == "e":
            return st.env.get((l[1], l[2]))
        return st.mem.get((l[1], l[2]))

    def store(self, l, v, st):
        if l is None:
            return
        if l[0] == "e":
            st.env[(l[1], l[2])] = v
        else:
            st.mem[(l[1], l[2])] = v

    # ---- statements and branches ----------------------------------------------------------------------------------------------
    def step(self, fn, n, fr, this, st, depth):
        """evaluates one CFG element: [(value or None, state)]"""
        if n.k == "decl":
            res = [st]
            for v, i in n.d.get("vars", ()):
                nn = []
                d = fn.decls[v]
                for s in res:
                    if i < 0:
                        rec = None if limits(d.type) or bare(d.type) in FLOATS else self.prog.records.get(bare(d.type))
                        if rec is not None:
                            o = V("o", ty=bare(d.type), path=d.name)
                            s.env[(fr, v)] = o
                        else:
                            s.env[(fr, v)] = self.fresh(d.type, d.name)
                        nn.append(s)
                        continue
                    init = fn.nodes[i]
                    if d.type.rstrip().endswith("&"):
                        l = self.loc(fn, init, fr, this, s)
                        if l is not None:
                            s.alias[(fr, v)] = l
                            nn.append(s)
                            continue
                    for x, s2 in self.ev(fn, init, fr, this, s, depth):
                        s2.env[(fr, v)] = x if d.type.rstrip().endswith("&") else self.copyval(x, s2)
                        self.bindings(fn, n, v, fr, s2)
                        nn.append(s2)
                res = nn
            return [(None, s) for s in res]
        if n.k in ("block", "if", "for", "while", "do", "case", "default", "switch"):
            return [(None, st)]
        if (fr, n.id) in st.vals and n.k == "call":
            pass
        # the arms of && || ?: have been evaluated by the preceding blocks
        return self.ev(fn, n, fr, this, st, depth, force=True)

    def bindings(self, fn, n, v, fr, st):
        """structured bindings of the object v"""
        for w, names in n.d.get("sbind", ()):
            x = st.env.get((fr, v))
            if w != v or x is None or x.kind != "o":
                continue
            rec = self.prog.records.get(bare(fn.decls[v].type))
            fields = ["first", "second"] if "std::pair<" in x.ty or "std::pair<" in fn.decls[v].type else [f["n"] for f in rec.fields] if rec is not None else []
            for b, f in zip(names, fields):
                if (x.id, f) in st.mem:
                    st.env[(fr, b)] = st.mem[(x.id, f)]

    def copyval(self, v, st):
        if v is not None and v.kind == "o" and v.env != "nonnull":      # copies of pointers designate the same object
            o = V("o", ty=v.ty, path=v.path)
            for k in list(st.mem):
                if k[0] == v.id:
                    st.mem[(o.id, k[1])] = self.copyval(st.mem[k], st)
            return o
        return v

    def branch(self, fn, blk, fr, this, st, depth):
        if blk.tk == "SwitchStmt":
            sw = Switch(fn, blk)
            out = []
            for v, s in self.ev(fn, sw.cond, fr, this, st, depth):
                if v.kind != "i":
                    for t in blk.succ:
                        if t >= 0:
                            out.append((t, s.copy()))
                    continue
                rest = s.copy()
                for k, t in sw.cases.items():
                    kv = Eval(self.prog).enumval(k)
                    c = integer(kv, kv, v.ty)
                    s2 = self.assume(("cmp", "==", v, c), True, s.copy())
                    if s2 is not None:
                        out.append((t, s2))
                    if rest is not None:
                        rest = self.assume(("cmp", "==", v, c), False, rest)
                t = sw.default if sw.default is not None else sw.falls_out
                if rest is not None and t is not None:
                    out.append((t, rest))
            return out
        ss = list(blk.succ)
        if len(ss) == 2 and blk.cond is not None:
            c = fn.nodes[blk.cond]
            whole = c
            while c.k == "bin" and c.op in ("&&", "||") and c.id not in blk.elems:
                c = c.child(1)
            out = []
            for v, s in self.ev(fn, c, fr, this, st, depth):
                for idx, truth in ((0, True), (1, False)):
                    if ss[idx] < 0:
                        continue
                    s2 = self.assume_value(v, truth, s.copy())
                    if s2 is None:
                        continue
                    if blk.tk in ("BinaryOperator", "ConditionalOperator"):
                        p = whole
                        while p is not None and p.parent is not None and not (p.k == "bin" and p.op in ("&&", "||") and blk.tk == "BinaryOperator" and p is not whole):
                            if blk.tk == "ConditionalOperator" and p.k == "cond":
                                break
                            p = p.parent
                        if p is not None:
                            s2.vals[(fr, "arm", p.id)] = idx
                    out.append((ss[idx], s2))
            return out
        return [(s, st.copy() if len(ss) > 1 else st) for s in ss if s >= 0]

    # ---- conditions -----------------------------------------------------------------------------------------------------------
    def assume_value(self, v, truth, st):
        if v is None:
            return st
        if v.kind == "b":
            if v.pred is None:
                r = st.rng.get(v.id)
                if r is not None:
                    return st if r[0] == int(truth) else None
                st.rng[v.id] = (int(truth), int(truth), frozenset(), False)
                return st
            return self.assume(v.pred, truth, st)
        if v.kind == "i":
            st = self.assume(("cmp", "!=", v, integer(0, 0, v.ty)), truth, st)
            if st is not None and isinstance(v.env, tuple) and v.env[0] == "parity":
                return self.parity(v.env[1], truth, st)
            return st
        if v.kind == "f":
            return self.assume(("cmp", "!=", v, flt(0.0, 0.0, False)), truth, st)
        if v.kind in ("s", "o"):
            if v.env == "nonnull":
                return st if truth else None
            if v.ty == "std::nullptr_t":
                return None if truth else st
        if v.kind == "s":
            b = self.observe("bool(%s)" % v.path, "bool")
            return self.assume_value(b, truth, st)
        return st

    def parity(self, v, odd, st):
        lo, hi, ex, nan = st.range(v)
        if not isinstance(lo, int) or not isinstance(hi, int):
            return st
        lo += (lo % 2 == 1) != odd
        hi -= (hi % 2 == 1) != odd
        if lo > hi:
            return None
        st.rng[v.id] = (lo, hi, ex, nan)
        return st

    def assume(self, pred, truth, st):
        if pred is True or pred is False:
            return st if pred == truth else None
        if pred is None:
            return st
        k = pred[0]
        if k == "not":
            return self.assume_value(pred[1], not truth, st)
        if k in ("and", "or"):
            if (k == "and") == truth:
                s = self.assume_value(pred[1], truth, st)
                return None if s is None else self.assume_value(pred[2], truth, s)
            a = self.assume_value(pred[1], truth, st.copy())
            b = self.assume_value(pred[2], truth, st.copy())
            if a is None:
                return b
            if b is None:
                return a
            return st
        if k == "nan":
            v = pred[1]
            lo, hi, ex, nan = st.range(v)
            if truth:
                if not nan:
                    return None
                st.rng[v.id] = (INF, -INF, ex, True)
            else:
                if lo > hi:
                    return None
                st.rng[v.id] = (lo, hi, ex, False)
            return st
        if k == "finite":
            v = pred[1]
            lo, hi, ex, nan = st.range(v)
            M = 1.7976931348623157e308
            if truth:
                lo, hi = max(lo, -M), min(hi, M)
                if lo > hi:
                    return None
                st.rng[v.id] = (lo, hi, ex, False)
            elif not nan and lo >= -M and hi <= M:
                return None
            return st
        if k == "cmp":
            return self.assume_cmp(pred[1], pred[2], pred[3], truth, st)
        return st

    record = False

    def assume_cmp(self, op, a, b, truth, st):
        if self.record:
            st = st.copy()
            st.mem["facts"] = st.mem.get("facts", ()) + ((op, a.sym, b.sym, bool(truth)),)
        fl = a.kind == "f" or b.kind == "f"
        if not fl and not truth:
            op = NEGOP[op]
            truth = True
        ra, rb = st.range(a), st.range(b)
        if fl and not truth:
            # not (a op b): either unordered or the opposite comparison
            nanpos = ra[3] or rb[3]
            if op == "!=":
                op = "=="
            elif nanpos:
                if op == "==":
                    return st
                s = self.cut(NEGOP[op], a, b, ra, rb, st.copy(), keepnan=True)
                if s is not None:
                    return s
                # only unordered remains
                if ra[3] and not rb[3]:
                    st.rng[a.id] = (INF, -INF, ra[2], True)
                elif rb[3] and not ra[3]:
                    st.rng[b.id] = (INF, -INF, rb[2], True)
                return st
            else:
                op = NEGOP[op]
        elif fl and op == "!=" and (ra[3] or rb[3]):
            if a is b or a.id == b.id:
                return self.assume(("nan", a), True, st)
            return st
        if a.id == b.id:
            if op in ("<", ">"):
                return None
            if op == "!=":
                return None
            if fl:
                return self.assume(("nan", a), False, st)
            return st
        st = self.cut(op, a, b, ra, rb, st)
        if st is not None and op in ("==", "!=") and a.kind == b.kind == "i":
            for x, y in ((a, b), (b, a)):
                if isinstance(x.env, tuple) and x.env[0] == "parity":
                    lo, hi = st.range(x)[:2]
                    if lo == hi and lo in (-1, 0, 1):
                        return self.parity(x.env[1], lo != 0, st)
        return st

    def cut(self, op, a, b, ra, rb, st, keepnan=False):
        fl = a.kind == "f" or b.kind == "f"
        alo, ahi, aex, anan = ra
        blo, bhi, bex, bnan = rb

        def below(x):
            return math.nextafter(x, -INF) if fl else x - 1

        def above(x):
            return math.nextafter(x, INF) if fl else x + 1
        if fl and (op == "<" and (bhi == -INF or alo == INF) or op == ">" and (blo == INF or ahi == -INF)):
            return None
        if op == "==":
            lo, hi = max(alo, blo), min(ahi, bhi)
            alo = blo = lo
            ahi = bhi = hi
            aex = bex = aex | bex
        elif op == "!=":
            if blo == bhi:
                aex = aex | {blo}
            if alo == ahi:
                bex = bex | {alo}
        elif op == "<":
            ahi = min(ahi, below(bhi))
            blo = max(blo, above(alo))
        elif op == "<=":
            ahi = min(ahi, bhi)
            blo = max(blo, alo)
        elif op == ">":
            alo = max(alo, above(blo))
            bhi = min(bhi, below(ahi))
        elif op == ">=":
            alo = max(alo, blo)
            bhi = min(bhi, ahi)

        def shrink(lo, hi, ex):
            while lo in ex and lo <= hi:
                if lo == INF:
                    return INF, -INF, ex
                lo = above(lo)
            while hi in ex and lo <= hi:
                if hi == -INF:
                    return INF, -INF, ex
                hi = below(hi)
            return lo, hi, ex
        alo, ahi, aex = shrink(alo, ahi, aex)
        blo, bhi, bex = shrink(blo, bhi, bex)
        if alo > ahi or blo > bhi:
            return None
        st.rng[a.id] = (alo, ahi, aex, anan if keepnan else False)
        st.rng[b.id] = (blo, bhi, bex, bnan if keepnan else False)
        return st

    def decide(self, v, st):
        """True, False or None"""
        t = self.assume_value(v, True, st.copy())
        f = self.assume_value(v, False, st.copy())
        if t is None and f is not None:
            return False
        if f is None and t is not None:
            return True
        return None

    # ---- expressions ----------------------------------------------------------------------------------------------------------
    def ev(self, fn, n, fr, this, st, depth, force=False):
        """[(value, state)]"""
        if n is None:
            return [(V("v"), st)]
        if not force:
            v = st.vals.get((fr, n.id))
            if v is not None:
                return [(v, st)]
        k = n.k
        ty = n.type if isinstance(n.type, str) else ""
        if k == "ref":
            l = self.loc(fn, n, fr, this, st)
            v = self.load(l, st)
            if v is None:
                if n.value is not None:
                    v = self.const(n.value, ty)
                else:
                    b = n.d.get("bind", -1)
                    if b is not None and b >= 0 and fn.nodes[b] is not None and fn.nodes[b] is not n:
                        return self.ev(fn, fn.nodes[b], fr, this, st, depth)
                    d = fn.decls[n.decl] if n.decl >= 0 else None
                    v = None
                    if d is not None and d.kind == "var":
                        ini = ctx_of(fn).init_of(n.decl)
                        if ini is not None and ctx_of(fn).is_stable(n.decl) and ini.k == "lambda":
                            return self.ev(fn, ini, fr, this, st, depth)
                    if d is not None and d.kind in ("global", "static"):
                        v = self.observe("global " + (d.name or n.name), ty)
                    else:
                        v = self.fresh(ty, n.name)
                        if n.decl >= 0 and d is not None:
                            self.store(l, v, st)
            return [(v, st)]
        if n.value is not None and k not in ("call",):
            return [(self.const(n.value, ty), st)]
        if k == "lit":
            fv = n.d.get("fv")
            if fv is not None:
                try:
                    x = float.fromhex(fv) if "x" in str(fv) else float(fv)
                    return [(flt(x, x, False), st)]
                except ValueError:
                    pass
            return [(self.fresh(ty), st)]
        if k == "enum":
            return [(self.const(Eval(self.prog).enumval(n.q), ty), st)]
        if k == "this":
            return [(this if this is not None else obj("this", fn.cls), st)]
        if k == "member":
            l = self.loc(fn, n, fr, this, st)
            v = self.load(l, st) if l is not None else None
            if v is not None:
                return [(v, st)]
            c = n.child(0)
            out = []
            for o, s in (self.ev(fn, c, fr, this, st, depth) if c is not None else [(this, st)]):
                if o is not None and o.kind == "o":
                    v = s.mem.get((o.id, n.name))
                    if v is None:
                        v = s.mem[(o.id, n.name)] = self.fresh(ty, "%s.%s" % (o.path, n.name))
                    out.append((v, s))
                elif o is not None and o.kind == "s":
                    out.append((self.observe("%s.%s" % (o.path, n.name), ty), s))
                else:
                    out.append((self.fresh(ty, n.name), s))
            return out
        if k == "cast":
            return [(self.cast(fn, n, v, s), s) for v, s in self.ev(fn, n.child(0), fr, this, st, depth)]
        if k in ("paren", "exprwithcleanups", "materialize", "defaultarg", "bindtemp") or (k == "init" and len(n.children) == 1):
            return self.ev(fn, n.children[0] if n.children else None, fr, this, st, depth)
        if k == "init":
            return [(self.fresh(ty), st)]
        if k == "lambda":
            return [(self.closure(fn, n, fr, this, st), st)]
        if k == "un":
            return self.unary(fn, n, fr, this, st, depth)
        if k == "bin":
            return self.binary(fn, n, fr, this, st, depth)
        if k == "cond":
            c, a, b = n.children
            arm = st.vals.get((fr, "arm", n.id))
            if arm is not None:
                return self.ev(fn, a if arm == 0 else b, fr, this, st, depth)
            out = []
            for v, s in self.ev(fn, c, fr, this, st, depth):
                for truth, x in ((True, a), (False, b)):
                    s2 = self.assume_value(v, truth, s.copy())
                    if s2 is not None:
                        out += self.ev(fn, x, fr, this, s2, depth)
            return out
        if k == "call":
            return self.call(fn, n, fr, this, st, depth)
        return [(self.fresh(ty, ctx_of(fn).path(n)), st)]

    def const(self, v, ty):
        t = bare(ty)
        if t == "bool":
            return V("b", pred=bool(v))
        if t in FLOATS:
            return flt(float(v), float(v), False)
        v = int(v)
        lm = limits(t)
        if lm and not lm[0] <= v <= lm[1]:
            v = v % (lm[1] - lm[0] + 1)
            if v > lm[1]:
                v -= lm[1] - lm[0] + 1
        return integer(v, v, t or "long")

    def as_int(self, v, st, ty="int"):
        if v.kind == "b":
            d = self.decide(v, st)
            if d is None:
                return integer(0, 1, ty)
            return integer(int(d), int(d), ty)
        return v

    def cast(self, fn, n, v, st):
        ck = n.d.get("ck")
        ty = bare(n.type)
        if v is None:
            return self.fresh(ty)
        if ty == "bool":
            if v.kind == "i":
                return V("b", pred=("cmp", "!=", v, integer(0, 0, v.ty)))
            if v.kind == "f":
                return V("b", pred=("cmp", "!=", v, flt(0.0, 0.0, False)))
            return v
        if v.kind == "b":
            if ty in WIDTH:
                return v
            if ty in FLOATS:
                d = self.decide(v, st)
                return flt(0.0 if d is not True else 1.0, 1.0 if d is not False else 0.0, False)
            return v
        lm = limits(ty)
        if lm is None and ty in self.prog.enums:
            return v
        if v.kind == "i" and lm:
            lo, hi, ex, _ = st.range(v)
            if lo >= lm[0] and hi <= lm[1]:
                if bare(v.ty) == ty:
                    return v
                c = V("i", lo=lo, hi=hi, ty=ty, sym=v.sym)
                c.id = v.id
                return c
            self.hook("narrow", fn, n, st, v, lm)
            if limits(v.ty) and hi - lo <= lm[1] - lm[0]:
                # modular conversion of a contiguous range
                m = lm[1] - lm[0] + 1
                l2, h2 = (lo - lm[0]) % m + lm[0], (hi - lm[0]) % m + lm[0]
                if l2 <= h2:
                    return integer(l2, h2, ty, wrapped(ty, v.sym))
            return integer(lm[0], lm[1], ty, wrapped(ty, v.sym))
        if v.kind == "i" and ty in FLOATS:
            lo, hi, ex, _ = st.range(v)
            return flt(float(lo), float(hi), False, "float(%s)" % v.sym if v.sym else None)
        if v.kind == "f" and lm:
            lo, hi, ex, nan = st.range(v)
            ok = not nan and lo > hi or (not nan and lo > lm[0] - 1 and hi < lm[1] + 1)
            self.hook("float-cast", fn, n, st, ok, (lo, hi, nan), lm)
            if ok and lo <= hi:
                return integer(max(lm[0], int(math.trunc(lo))), min(lm[1], int(math.trunc(hi))), ty, "int(%s)" % v.sym if v.sym else None)
            return integer(lm[0], lm[1], ty)
        if v.kind == "f" and ty in FLOATS:
            return v
        if (lm or ty in FLOATS) and v.kind not in ("i", "f"):
            return self.fresh(ty)
        return v

    def closure(self, fn, n, fr, this, st):
        env = {}
        for ci, c in enumerate(n.d.get("caps", ())):
            if c[1] >= 0:
                d = fn.decls[c[1]]
                l = st.alias.get((fr, c[1])) or ("e", fr, c[1])
                if c[2]:
                    env[d.key] = ("loc", l)
                else:
                    v = self.load(l, st)
                    if v is None and len(n.children) == len(n.d["caps"]):
                        v = next((x for x, _ in self.ev(fn, n.child(ci), fr, this, st, 0)), None)      # [name = expression]
                    if v is not None:
                        env[d.key] = ("val", self.copyval(v, st))
        fns = [f for ln, f in fn.lambdas() if ln is n]
        return V("l", fn=fns, env=env, path="lambda", fid=this)

    def unary(self, fn, n, fr, this, st, depth):
        op = n.op
        c = n.child(0)
        out = []
        if op in ("++", "--"):
            for v, s in self.ev(fn, c, fr, this, st, depth):
                nv = self.fresh(n.type)
                if v.kind == "i":
                    nv = self.arith(fn, n, "+" if op == "++" else "-", v, integer(1, 1, v.ty), s, bare(c.type))
                self.store(self.loc(fn, c, fr, this, s), nv, s)
                out.append((v if n.d.get("post") else nv, s))
            return out
        for v, s in self.ev(fn, c, fr, this, st, depth):
            if op == "!":
                if v.kind == "b" and isinstance(v.pred, tuple) and v.pred[0] == "not":
                    out.append((v.pred[1], s))
                elif v.kind == "b" and isinstance(v.pred, bool):
                    out.append((V("b", pred=not v.pred), s))
                else:
                    out.append((V("b", pred=("not", v)), s))
            elif op == "-":
                if v.kind == "f":
                    lo, hi, ex, nan = s.range(v)
                    out.append((flt(-hi, -lo, nan, "-(%s)" % v.sym if v.sym else None), s))
                elif v.kind in ("i", "b"):
                    v = self.as_int(v, s)
                    r = self.arith(fn, n, "-", integer(0, 0, v.ty), v, s, bare(n.type))
                    r.sym = "-(%s)" % v.sym if v.sym else None
                    out.append((r, s))
                else:
                    out.append((self.fresh(n.type), s))
            elif op == "~":
                if v.kind == "i" and limits(n.type):
                    lo, hi, ex, _ = s.range(v)
                    lm = limits(n.type)
                    if lm[0] < 0:
                        out.append((integer(-1 - hi, -1 - lo, bare(n.type), "~(%s)" % v.sym if v.sym else None), s))
                    else:
                        out.append((integer(lm[1] - hi, lm[1] - lo, bare(n.type), "~(%s)" % v.sym if v.sym else None), s))
                else:
                    out.append((self.fresh(n.type), s))
            elif op in ("*", "&", "+"):
                out.append((v, s))
            else:
                out.append((self.fresh(n.type), s))
        return out

    def arith(self, fn, n, op, a, b, st, ty):
        if ty.endswith("*") and a.kind == "i" and b.kind == "i" and a.lo == a.hi and b.lo == b.hi:
            ty = "long"      # addresses relative to some base
        lm = limits(ty)
        a, b = self.as_int(a, st), self.as_int(b, st)
        if a.kind != "i" or b.kind != "i" or lm is None:
            return self.fresh(ty)
        alo, ahi, aex, _ = st.range(a)
        blo, bhi, bex, _ = st.range(b)
        signed = lm[0] < 0
        sym = combine(op, a, b)
        if op in ("/", "%"):
            zero = blo <= 0 <= bhi and 0 not in bex
            self.hook("div", fn, n, st, not zero, (blo, bhi))
            over = signed and alo <= lm[0] and lm[0] not in aex and blo <= -1 <= bhi and -1 not in bex
            self.hook("div-overflow", fn, n, st, not over, (alo, ahi, blo, bhi))
            if alo == ahi and blo == bhi and blo != 0 and not over:
                q = abs(alo) // abs(blo) * (1 if (alo < 0) == (blo < 0) else -1)
                r = q if op == "/" else alo - q * blo
                if lm[0] <= r <= lm[1]:
                    return integer(r, r, ty)
            if op == "/":
                xs = []
                for y in (blo, bhi, -1, 1):
                    if blo <= y <= bhi and y != 0:
                        for x in (alo, ahi):
                            q = abs(x) // abs(y)
                            xs.append(q if (x < 0) == (y < 0) else -q)
                if blo <= 0 <= bhi:
                    xs.append(0)
                if alo <= 0 <= ahi:
                    xs.append(0)
                if not xs:
                    return self.fresh(ty)
                return integer(max(lm[0], min(xs)), min(lm[1], max(xs)), ty, sym)
            m = max(abs(blo), abs(bhi))
            r = integer(max(lm[0], -(m - 1) if alo < 0 else 0), min(lm[1], max(0, m - 1) if ahi > 0 else 0), ty, sym)
            if blo == bhi and abs(blo) == 2:
                r.env = ("parity", a)
            return r
        if op in ("+", "-", "*"):
            if op == "+":
                lo, hi = alo + blo, ahi + bhi
            elif op == "-":
                lo, hi = alo - bhi, ahi - blo
            else:
                xs = [x * y for x in (alo, ahi) for y in (blo, bhi)]
                lo, hi = min(xs), max(xs)
            fits = lo >= lm[0] and hi <= lm[1]
            if signed:
                self.hook("overflow", fn, n, st, fits, (lo, hi))
            else:
                self.hook("wrap", fn, n, st, fits, (lo, hi))
            if fits:
                return integer(lo, hi, ty, sym)
            if not signed:
                sym = wrapped(ty, sym)
            if not signed and (lo > lm[1] or hi < lm[0]) and hi - lo <= lm[1]:
                m = lm[1] + 1
                if lo % m <= hi % m:
                    return integer(lo % m, hi % m, ty, sym)
            return integer(lm[0], lm[1], ty, sym)
        if op in ("<<", ">>"):
            bits = WIDTH[ty][0]
            self.hook("shift", fn, n, st, blo >= 0 and bhi < bits, (blo, bhi))
            if op == "<<" and signed:
                self.hook("shift-negative", fn, n, st, alo >= 0, (alo, ahi))
            if blo >= 0 and bhi < bits:
                if op == ">>":
                    xs = [x >> y for x in (alo, ahi) for y in (blo, bhi)]
                    return integer(min(xs), max(xs), ty, sym)
                xs = [x << y for x in (alo, ahi) for y in (blo, bhi)]
                if min(xs) >= lm[0] and max(xs) <= lm[1]:
                    return integer(min(xs), max(xs), ty, sym)
                if not signed:
                    sym = wrapped(ty, sym)
            return integer(lm[0], lm[1], ty, sym)
        if op == "&":
            if alo == ahi and blo == bhi:
                return integer(alo & blo, alo & blo, ty, sym)
            if blo >= 0:
                r = integer(0, bhi, ty, sym)
                if blo == bhi == 1:
                    r.env = ("parity", a)
                return r
            if alo >= 0:
                return integer(0, ahi, ty, sym)
        if op in ("|", "^") and alo == ahi and blo == bhi:
            r = alo | blo if op == "|" else alo ^ blo
            return integer(r, r, ty, sym)
        if op in ("|", "^") and alo >= 0 and blo >= 0:
            m = (1 << max(ahi.bit_length(), bhi.bit_length())) - 1
            return integer(max(alo, blo) if op == "|" else 0, min(lm[1], m), ty, sym)
        return integer(lm[0], lm[1], ty, sym)

    def farith(self, op, a, b, st):
        sym = combine(op, a, b)
        return flt(sym=sym)

    def promote(self, v, st):
        if v.kind == "i":
            lo, hi, _, _ = st.range(v)
            return flt(float(lo), float(hi), False, "float(%s)" % v.sym if v.sym else None)
        return v

    def binary(self, fn, n, fr, this, st, depth):
        op = n.op
        l, r = n.child(0), n.child(1)
        out = []
        if op in ("&&", "||"):
            arm = st.vals.get((fr, "arm", n.id))
            if arm is not None:
                if op == "&&" and arm == 1:
                    return [(V("b", pred=False), st)]
                if op == "||" and arm == 0:
                    return [(V("b", pred=True), st)]
                return self.ev(fn, r, fr, this, st, depth)
            for a, s in self.ev(fn, l, fr, this, st, depth):
                for b, s2 in self.ev(fn, r, fr, this, s, depth):
                    out.append((V("b", pred=("and" if op == "&&" else "or", a, b)), s2))
            return out
        if op == ",":
            for _, s in self.ev(fn, l, fr, this, st, depth):
                out += self.ev(fn, r, fr, this, s, depth)
            return out
        if op == "=":
            for v, s in self.ev(fn, r, fr, this, st, depth):
                v = self.copyval(v, s)
                self.store(self.loc(fn, l, fr, this, s), v, s)
                out.append((v, s))
            return out
        comp = op.endswith("=") and op not in ("==", "!=", "<=", ">=")
        for a, s in self.ev(fn, l, fr, this, st, depth):
            for b, s2 in self.ev(fn, r, fr, this, s, depth):
                v = self.binop(fn, n, op[:-1] if comp else op, a, b, s2, n.d.get("ct") or n.type)
                if comp:
                    self.store(self.loc(fn, l, fr, this, s2), v, s2)
                out.append((v, s2))
        return out

    def binop(self, fn, n, op, a, b, s, ty):
        if op in NEGOP:
            if a.kind == "b" and b.kind == "b":
                da, db = self.decide(a, s), self.decide(b, s)
                if db is not None and op in ("==", "!="):
                    return a if (db == (op == "==")) else V("b", pred=("not", a))
                if da is not None and op in ("==", "!="):
                    return b if (da == (op == "==")) else V("b", pred=("not", b))
                return V("b", pred=None)
            a, b = self.as_int(a, s), self.as_int(b, s)
            if a.kind in ("i", "f") and b.kind in ("i", "f"):
                if a.kind != b.kind:
                    a, b = self.promote(a, s), self.promote(b, s)
                return V("b", pred=("cmp", op, a, b))
            if a.kind in ("s", "o") and b.kind in ("s", "o") and op in ("==", "!="):
                for x, nl in ((a, b), (b, a)):
                    if x.env == "nonnull" and nl.ty == "std::nullptr_t":
                        return V("b", pred=op == "!=")
                if a.ty == "std::nullptr_t" == b.ty:
                    return V("b", pred=op == "==")
                if a.env == "nonnull" and b.env == "nonnull" and a.path[:1] == "@" == b.path[:1]:      # addresses of different objects
                    return V("b", pred=(a.path == b.path) == (op == "=="))
            if a.kind == "s" and b.kind == "s" and op in ("==", "!="):
                if a.path == b.path:
                    return V("b", pred=op == "==")
                for x, nl in ((a, b), (b, a)):
                    if nl.ty == "std::nullptr_t" and x.ty != "std::nullptr_t":
                        t = self.observe("bool(%s)" % x.path, "bool")
                        return V("b", pred=("not", t)) if op == "==" else t
                x = self.observe("(%s == %s)" % tuple(sorted((a.path, b.path))), "bool")
                return x if op == "==" else V("b", pred=("not", x))
            return V("b", pred=None)
        if a.kind == "f" or b.kind == "f":
            return self.farith(op, self.promote(a, s), self.promote(b, s), s)
        return self.arith(fn, n, op, a, b, s, bare(ty))

    # ---- calls ----------------------------------------------------------------------------------------------------------------
    def call(self, fn, n, fr, this, st, depth):
        q = strip_targs(n.q or "")
        args = n.args
        out = []
        # evaluate object and arguments
        states = [([], st)]
        nodes = ([n.obj] if n.obj is not None else []) + ([n.fnexpr] if n.obj is None and n.fnexpr is not None and not n.q else []) + list(args)
        for a in nodes:
            nn = []
            for vs, s in states:
                for v, s2 in self.ev(fn, a, fr, this, s, depth):
                    nn.append((vs + [v], s2))
            states = nn
        for vs, s in states:
            o = vs[0] if n.obj is not None else None
            av = vs[1:] if n.obj is not None else vs
            out += self.apply(fn, n, q, o, av, fr, this, s, depth)
        return out

    def apply(self, fn, n, q, o, av, fr, this, st, depth):
        name = n.name
        args = n.args
        ty = n.type
        if q == "__builtin_expect":
            return [(av[0], st)]
        self.cur = (fr, this)
        r = self.intercept(self, fn, n, q, o, av, st)
        if r is not None:
            return r
        m = re.match(r"__builtin_(s|u)?(add|sub|mul)l*_overflow$", q)
        if m and len(args) == 3:
            op = {"add": "+", "sub": "-", "mul": "*"}[m.group(2)]
            a, b = av[0], av[1]
            p = args[2]
            while p is not None and p.k == "cast":
                p = p.child(0)
            tgt = p.child(0) if p is not None and p.k == "un" and p.op == "&" else None
            lm = limits(tgt.type) if tgt is not None else None
            l = self.loc(fn, tgt, fr, this, st) if tgt is not None else None
            if lm is None or a.kind != "i" or b.kind != "i":
                if l is not None:
                    self.store(l, self.fresh(tgt.type), st)
                return [(V("b", pred=None), st)]
            alo, ahi, _, _ = st.range(a)
            blo, bhi, _, _ = st.range(b)
            xs = {"+": (alo + blo, ahi + bhi), "-": (alo - bhi, ahi - blo)}.get(op)
            if xs is None:
                ys = [x * y for x in (alo, ahi) for y in (blo, bhi)]
                xs = (min(ys), max(ys))
            res = []
            sym = combine(op, a, b)
            if xs[1] >= lm[0] and xs[0] <= lm[1]:
                s = st.copy()
                self.store(l, integer(max(xs[0], lm[0]), min(xs[1], lm[1]), bare(tgt.type), sym), s)
                res.append((V("b", pred=False), s))
            if xs[0] < lm[0] or xs[1] > lm[1]:
                s = st.copy()
                self.store(l, self.fresh(tgt.type), s)
                res.append((V("b", pred=True), s))
            return res
        m = re.match(r"std::numeric_limits<(.*)>::(min|max|lowest|quiet_NaN|infinity|epsilon)$", n.q or "")
        if m:
            lm = limits(m.group(1))
            if lm:
                x = lm[1] if m.group(2) == "max" else lm[0]
                return [(integer(x, x, m.group(1)), st)]
            x = {"max": 1.7976931348623157e308, "lowest": -1.7976931348623157e308, "infinity": INF}.get(m.group(2))
            if x is not None:
                return [(flt(x, x, False), st)]
            if m.group(2) == "quiet_NaN":
                return [(flt(INF, -INF, True), st)]
            return [(flt(), st)]
        if q in ("std::isnan", "isnan", "__builtin_isnan", "std::isfinite", "isfinite", "std::isinf") and len(av) == 1 and av[0].kind == "f":
            if q.endswith("isnan"):
                return [(V("b", pred=("nan", av[0])), st)]
            if q.endswith("isfinite"):
                return [(V("b", pred=("finite", av[0])), st)]
            return [(V("b", pred=None), st)]
        if q in ("std::move", "std::forward", "std::addressof", "std::as_const", "std::cref", "std::ref", "tiro::to_underlying") and len(av) == 1:
            return [(av[0], st)]
        if q == "std::swap" and len(av) == 2:
            l0, l1 = self.loc(fn, args[0], fr, this, st), self.loc(fn, args[1], fr, this, st)
            if l0 is not None and l1 is not None:
                self.store(l0, av[1], st)
                self.store(l1, av[0], st)
                return [(V("v"), st)]
        if q == "std::exchange" and len(av) == 2:
            l = self.loc(fn, args[0], fr, this, st)
            if l is not None:
                self.store(l, av[1], st)
                return [(av[0], st)]
        if q in ("std::min", "std::max") and len(av) == 2 and av[0].kind == "i" and av[1].kind == "i":
            a, b = av
            out = []
            for truth in (True, False):
                s = self.assume(("cmp", "<", b, a), truth, st.copy())
                if s is not None:
                    out.append(((b if truth else a) if q == "std::min" else (a if truth else b), s))
            return out
        if (q.startswith("std::") or q in MATH) and bare(ty) in FLOATS and all(a.kind in ("f", "i") for a in av):
            ps = [self.promote(a, st) for a in av]
            return [(flt(sym="%s(%s)" % (q, ", ".join(p.sym for p in ps)) if all(p.sym for p in ps) else None), st)]
        cls = strip_targs(n.d.get("cls") or "")
        if cls == "tiro::vm::Fallible" or cls == "std::optional":
            x = o
            if n.d.get("ck") == "ctor" and len(av) == 1:
                return [(av[0], st)]
            if cls == "tiro::vm::Fallible" and x is not None and name in ("has_exception", "has_value", "value", "exception"):
                exc = x.kind == "s" and (bare(x.ty) == "tiro::vm::Exception" or "exception" in (x.path or "").split("(")[0])
                known = exc or x.kind in ("i", "f", "b")
                if name == "has_exception":
                    return [(V("b", pred=exc) if known else self.observe("exc(%s)" % x.path, "bool"), st)]
                if name == "has_value":
                    return [(V("b", pred=not exc) if known else V("b", pred=("not", self.observe("exc(%s)" % x.path, "bool"))), st)]
                if known:
                    return [(x, st)]
            if cls == "std::optional" and n.d.get("ck") == "ctor" and not av:
                return [(obj("std::nullopt", "std::optional"), st)]
            if cls == "std::optional" and x is not None:
                empty = x.kind == "s" and (x.path or "").startswith("std::nullopt")
                full = x.kind in ("i", "f", "b") or x.env is not None
                if name in ("operator bool", "has_value") and (empty or full):
                    return [(V("b", pred=full), st)]
                if name in ("operator*", "value") and full:
                    return [(x, st)]
        # functors and lambdas
        if name == "operator()" and o is not None and o.kind == "l":
            return self.call_closure(fn, n, o, av, fr, this, st, depth)
        if n.d.get("ck") == "op" and n.op in ("->", "*") and o is not None and not args:
            return [(o, st)]
        if n.d.get("ck") == "op" and n.op in NEGOP:
            xs = ([o] if o is not None else []) + av
            if len(xs) == 2 and all(x.kind in ("i", "f", "b") for x in xs):
                return [(self.binop(fn, n, n.op, xs[0], xs[1], st, "bool"), st)]
        if n.d.get("ck") == "op" and n.op == "=" and o is not None:
            v = self.copyval(av[-1], st)
            self.store(self.loc(fn, n.obj, fr, this, st), v, st)
            return [(v, st)]
        # constructors
        if n.d.get("ck") == "ctor":
            if len(av) == 1 and av[0].kind == "l" and bare(ty).startswith(("tiro::ScopeExit<", "tiro::ScopeSuccess<")):
                return [(av[0], st)]
            t = self.prog.fns.get(n.d.get("u"))
            if t is not None and t.cfg is not None and depth < self.maxdepth and any(isinstance(e, list) and e[0] == "init" for b in t.cfg.blocks.values() for e in b.elems) \
                    and not self.opaque(t) and not bare(ty).startswith("tiro::vm::"):
                ob = V("o", ty=bare(ty), path=bare(ty))
                return [(ob, s) for _, s in self.call_fn(t, av, [self.loc(fn, a, fr, this, st) for a in args], ob, st, depth + 1)]
            if len(av) == 1:
                v = av[0]
                if v.kind == "o":
                    return [(self.copyval(v, st), st)]
                if limits(ty) or v.kind != "s" or bare(v.ty or "") == bare(ty) or True:
                    return [(v, st)]
            if not av and self.prog.records.get(bare(ty)) is not None:
                return [(V("o", ty=bare(ty), path=bare(ty)), st)]
            return [(obj("%s{%s}" % (bare(ty), ",".join(self.pathof(a) for a in av)), bare(ty)), st)]
        ts = [t for t in self.prog.targets(n) if t.cfg is not None]
        if o is not None and o.kind == "s" and bare(o.ty or "").startswith("tiro::vm::") and name != "operator()" and not all(self.enter(t) for t in ts):
            ts = []
        if ts and depth < self.maxdepth and not any(self.opaque(t) for t in ts):
            locs = [self.loc(fn, a, fr, this, st) for a in args]
            th = o
            if th is None and ts[0].cls and not n.d.get("st"):
                th = this
            out = []
            for i, t in enumerate(ts):
                if n.name == "operator()" and n.d.get("ck") == "op" and t.cls and len(av) == len(t.params) + 1 and o is None:
                    th = av[0]
                    av2, lc2 = av[1:], locs[1:]
                else:
                    av2, lc2 = av, locs
                out += self.call_fn(t, av2, lc2, th, st.copy() if i + 1 < len(ts) else st, depth + 1)
            return [(self.typed(v, ty, s), s) for v, s in out]
        if n.d.get("nr"):
            return []
        # opaque: the same question gives the same answer; arguments passed by reference are forgotten
        pt = n.d.get("pt") or []
        pure = True
        for i, a in enumerate(args):
            if i < len(pt) and pt[i].endswith("&") and not pt[i].startswith("const ") and not pt[i].endswith("&&"):
                l = self.loc(fn, a, fr, this, st)
                if l is not None and self.load(l, st) is not None and self.load(l, st).kind != "s":
                    self.forget(l, st)
                    pure = False
        if o is not None and o.kind == "o" and not (n.d.get("const") or False):
            pass
        key = "%s%s(%s)" % ((o.path or "") + "." if o is not None else "", (name if o is not None else (n.q or name)) + ("<%s>" % ",".join(n.d.get("ta") or ())),
                            ",".join(self.pathof(a) for a in av))
        if bare(ty) == "void":
            return [(V("v"), st)]
        if not pure or "?" in key:
            return [(self.fresh(ty, key), st)]
        return [(self.observe(key, ty), st)]

    def typed(self, v, ty, st):
        return v

    def pathof(self, v):
        if v is None:
            return "?"
        if v.kind == "i":
            return str(v.lo) if v.lo == v.hi else "#%d" % v.id
        if v.kind == "f":
            return str(v.lo) if v.lo == v.hi else "#%d" % v.id
        return v.path or "#%d" % v.id

    def call_closure(self, fn, n, o, av, fr, this, st, depth):
        args = [a for a in n.args]
        if n.obj is None and len(av) == len(args) and args:
            pass
        ts = o.fn
        u = n.d.get("u")
        sel = [f for f in ts if f.usr == u] or [f for f in ts if len(f.params) == len(av)]
        if len(sel) > 1:
            # generic lambda: select the instantiation by the types of the arguments
            best = []
            for f in sel:
                if all(bare(p.type) == bare(a.ty or "") or a.kind not in ("i", "f") for p, a in zip(f.params, av)):
                    best.append(f)
            sel = best or sel
        if not sel and self.prog.fns.get(u) is not None:
            sel = [self.prog.fns[u]]
        if not sel or depth >= self.maxdepth:
            return [(self.fresh(n.type), st)]
        f = sel[0]
        if f.cfg is None:
            return [(self.fresh(n.type), st)]
        locs = [self.loc(fn, a, fr, this, st) for a in args][-len(av):] if av else []
        return self.call_fn(f, av, locs, o.fid, st, depth + 1, closure=o.env)
