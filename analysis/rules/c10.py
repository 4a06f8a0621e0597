"""Rules: equal() and hash() of runtime values are executed by an interval interpreter over all pairs of value types and over classes of numbers.
equal-kinds: values of two types can only be equal when both are numbers, both are strings or the types are the same, and values of one type are
compared by identity or by value. number-hash: the hash of a number depends on its mathematical value only: both integer representations, integral
floats, both zeros and all NaNs agree. number-equal: equality of numbers is exact, symmetric and total. string-hash: both string types hash and
compare their characters. identity-hash: types compared by identity hash nothing but the identity. key-hash: the hash table computes every hash
from the key with hash() and compares keys with equal()."""
from ..absint import Interp, V, integer, flt, obj, bare, INF
from ..arith import Runtime, Operand, MIN, MAX, opaque
from ..facts import AnalysisBroken
from ..flow import only_if
import math

VM = "tiro::vm::"
IPROBES = [MIN, MIN + 1, -(1 << 62) - 1, -(1 << 62), -(1 << 53) - 1, -1, 0, 1, 2, (1 << 53), (1 << 53) + 1, (1 << 62) - 1, 1 << 62, MAX - 1, MAX]
FPROBES = [-INF, -1e300, -math.ldexp(1, 63) * 1.0000000000000002, -math.ldexp(1, 63), -math.ldexp(1, 62), -math.ldexp(1, 53), -1.5, -1.0, 0.0, 5e-324, 0.5, 1.0, 2.0, 2.5,
           math.ldexp(1, 53), math.ldexp(1, 62), math.ldexp(1, 63), math.ldexp(1, 64), 1e300, INF]


def one(prog, q, n=None):
    fs = [f for f in prog.fns.values() if f.q == q and f.cfg is not None and (n is None or len(f.params) == n)]
    if len(fs) != 1:
        raise AnalysisBroken("%s not found" % q)
    return fs[0]


class Hashing(Runtime):
    """numbers: bytes(x) is what raw_span(x) views, H(bytes) what a function of such a span returns"""

    def __init__(self, prog):
        super().__init__(prog)
        self.it.record = True

    def intercept(self, it, fn, n, q, o, av, st):
        ty = bare(n.type)
        if ty.startswith("tiro::Span<") and len(av) == 1 and av[0].kind in ("i", "f") and n.name == "raw_span":
            return [(V("s", path="bytes", env=av[0]), st)]
        if ty.startswith("tiro::Span<") and len(av) >= 1 and av[0].kind == "s" and av[0].path == "bytes":
            return [(av[0], st)]
        if len(av) == 1 and av[0].kind == "s" and av[0].path == "bytes" and ty in ("unsigned long", "unsigned int") and not (o is not None and o.path == "bytes"):
            r = integer(0, (1 << 64) - 1, ty, "H")
            r.env = ("hash", av[0].env)
            return [(r, st)]
        return super().intercept(it, fn, n, q, o, av, st)


def bits(v, st):
    """the bytes a value consists of: ('const', kind, number) or ('term', type, term)"""
    lo, hi, ex, nan = st.range(v)
    if lo is not None and lo == hi and not nan:
        if v.kind == "i":
            return ("const", "i", lo % (1 << 64))
        return ("const", "f", lo)
    if v.kind == "f" and nan and lo > hi:
        return ("const", "f", "nan") if v.sym is None else ("term", "f", v.sym)
    if v.sym is None:
        return ("const", v.kind, "?")
    t = v.sym
    while t.startswith("conv_u64(") and t.endswith(")"):
        t = t[9:-1]
    return ("term", v.kind, t)


def numbers(prog, rep):
    rep.rule("number-hash", "the hash of a number depends on its mathematical value only")
    rep.rule("number-equal", "two numbers are equal exactly when their mathematical values are, in both directions")
    h, eq = one(prog, VM + "hash", 1), one(prog, VM + "equal", 2)
    m = Hashing(prog)

    def hashes(op, small):
        m.small = small
        m.set([op])
        m.it.paths = 0
        out = []
        for v, s in m.it.run(h, [obj(op.name)], None):
            if v.kind == "i" and isinstance(v.env, tuple) and v.env[0] == "hash":
                out.append((bits(v.env[1], s), s.range(m.nums[op.name]), s.mem.get("facts", ())))
            elif v.kind == "i" and s.range(v)[0] == s.range(v)[1]:
                out.append((("const", "h", s.range(v)[0]), s.range(m.nums[op.name]), s.mem.get("facts", ())))
            elif v.kind == "i" and v.sym:
                out.append((("direct", "h", v.sym), s.range(m.nums[op.name]), s.mem.get("facts", ())))
            else:
                raise AnalysisBroken("hash(): result %r is not understood" % (v,))
        if not out:
            raise AnalysisBroken("hash() of %r has no result" % op)
        return out
    whole = Operand("a", "int", MIN, MAX)
    a, b = {x[0] for x in hashes(whole, True)}, {x[0] for x in hashes(whole, False)}
    rep.check(a == b and len(a) == 1, "number-hash", h.loc, "integer representations", "small and heap integers are hashed differently: %s and %s" % (sorted(a), sorted(b)))
    for x in IPROBES:
        w = {y[0] for small in (True, False) for y in hashes(Operand("a", "int", x, x), small)}
        rep.check(len(w) == 1, "number-hash", h.loc, "integer %d" % x, "the representations of this integer have different hashes: %s" % sorted(w))
        try:
            f = float(x)
        except OverflowError:
            continue
        if int(f) != x:
            continue
        g = {y[0] for y in hashes(Operand("a", "float", f, f), True)}
        rep.check(g == w, "number-hash", h.loc, "integer %d and float" % x, "the float of the same value hashes %s, the integer %s" % (sorted(g), sorted(w)))
    nan = {y[0] for y in hashes(Operand("a", "float", INF, -INF, True), True)}
    rep.check(len(nan) == 1 and next(iter(nan))[0] == "const", "number-hash", h.loc, "NaN", "the hash of NaN depends on its bits: %s" % sorted(nan))
    lim = math.ldexp(1, 63)
    for cls in ((-INF, -lim), (-lim, -1.0), (-1.0, 1.0), (1.0, lim), (lim, INF), (-INF, INF)):
        for bt, r, facts in hashes(Operand("a", "float", cls[0], cls[1], False), True):
            if bt[0] != "term" or bt[1] != "f":
                continue
            cons = "float %r..%r" % cls
            if r[0] <= 0.0 <= r[1] and 0.0 not in r[2]:
                rep.bad("number-hash", h.loc, cons + "|zero", "the bits of the float are hashed although it can be 0.0 or -0.0, which are equal")
            elif r[1] < -lim or r[0] >= lim or any(op in ("==", "!=") and (op == "==") != t and {x, y} & {bt[2]} and x != y and x and y and bt[2] in x and bt[2] in y
                                                   for op, x, y, t in facts):
                rep.ok("number-hash", cons)
            elif any(x and y and "(" in (x + y) for op, x, y, t in facts):
                rep.ok("number-hash", cons + "|by points")
            else:
                rep.bad("number-hash", h.loc, cons + "|integral", "the bits of the float are hashed although its value can be an integer in the range of integers")

    def equals(x, y, small):
        m.small = small
        m.set([x, y])
        m.it.paths = 0
        out = set()
        for v, s in m.it.run(eq, [obj(x.name), obj(y.name)], None):
            if v.kind != "b":
                raise AnalysisBroken("equal(): result %r is not understood" % (v,))
            d = m.it.decide(v, s)
            out |= {d} if d is not None else {True, False}
        return out
    probes = [("int", x, Operand("a", "int", x, x), Operand("b", "int", x, x)) for x in IPROBES] + \
             [("float", x, Operand("a", "float", x, x), Operand("b", "float", x, x)) for x in FPROBES]
    for k1, x, A, _ in probes:
        for k2, y, _, B in probes:
            want = x == y  # Python compares int and float exactly
            got = set()
            for small in (True, False) if "int" in (k1, k2) else (True,):
                got |= equals(A, B, small)
            rep.check(got == {want}, "number-equal", eq.loc, "%s %r %s %r" % (k1, x, k2, y), "equal() gives %s for numbers that are %s" % (sorted(got), "equal" if want else "different"))
    n1, n2 = Operand("a", "float", INF, -INF, True), Operand("b", "float", INF, -INF, True)
    for cls in [Operand("b", "int", MIN, MAX), Operand("b", "float", -INF, INF)]:
        rep.check(equals(n1, cls, True) == {False}, "number-equal", eq.loc, "NaN %s" % cls.kind, "NaN can be equal to a number")
    for lo, hi, flo, fhi in ((MIN, -1, 0.0, INF), (1, MAX, -INF, 0.5), (0, MAX, -INF, -1.0), (MIN, 0, 1.0, INF), (MIN, MAX, lim, INF), (MIN, MAX, INF, INF), (MIN, MAX, -INF, -1.5 * lim)):
        for small in (True, False):
            rep.check(equals(Operand("a", "int", lo, hi), Operand("b", "float", flo, fhi), small) == {False} and
                      equals(Operand("a", "float", flo, fhi), Operand("b", "int", lo, hi), small) == {False}, "number-equal", eq.loc,
                      "%d..%d float %r..%r" % (lo, hi, flo, fhi), "numbers of disjoint ranges can be equal")


STRINGS = {"String", "StringSlice"}
NUMBERS = {"SmallInteger", "HeapInteger", "Float"}


class Kinds(Hashing):
    """values of any type: operands are named a and b, kind is the name of the value type"""

    def is_type(self, op, t, st):
        t = bare(t).rsplit("::", 1)[-1]
        if op.kind == t:
            return True
        if t in ("Value", "Nullable"):
            return True
        if t == "HeapValue":
            return op.kind not in ("Null", "SmallInteger")
        if t in ("Integer", "Number"):
            return op.kind in ("SmallInteger", "HeapInteger") or (t == "Number" and op.kind == "Float")
        if any(n == t for n, _ in self.prog.enums[VM + "ValueType"]["c"]):
            return False
        return None

    def enum(self, op):
        return {n: int(v) for n, v in self.prog.enums[VM + "ValueType"]["c"]}[op.kind]

    def set(self, operands):
        self.it.interned.clear()
        self.ops = {o.name: o for o in operands}
        self.nums = {}

    def note(self, st, what):
        st = st.copy()
        st.mem["seen"] = st.mem.get("seen", frozenset()) | {what}
        return st

    def intercept(self, it, fn, n, q, o, av, st):
        name, ty = n.name, bare(n.type)
        op = self.operand(o)
        if name in ("operator==", "operator!=", "compare") and any(x.path and str(x.path).startswith("chars:") for x in ([o] if o else []) + av if x.kind == "s"):
            xs = [x for x in ([o] if o else []) + av if x.kind == "s"]
            if len(xs) == 2 and all(x.path.startswith("chars:") for x in xs):
                st = self.note(st, "chars")
                if name == "compare":
                    raise AnalysisBroken("string comparison in equal() not understood")
                return [(V("b", pred=True), st), (V("b", pred=False), st.copy())] if xs[0].path != xs[1].path else [(V("b", pred=name == "operator=="), st)]
        if op is not None:
            if name == "same" and len(av) == 1 and self.operand(av[0]):
                s1, s2 = self.note(st, "same"), self.note(st, "notsame")
                if self.operand(av[0]).kind != op.kind:
                    return [(V("b", pred=False), s2)]
                return [(V("b", pred=True), s1), (V("b", pred=False), s2)]
            if name == "view" and not av and op.kind in STRINGS:
                return [(obj("chars:" + op.name, ty), st)]
            if name == "hash" and not av and op.kind in STRINGS:
                return [(integer(0, (1 << 64) - 1, ty, "hash of " + op.kind), st)]
            if name == "interned" and not av:
                k = ("interned", op.name)
                if k in st.mem:
                    return [(V("b", pred=st.mem[k]), st)]
                out = []
                for x in (True, False):
                    s = st.copy()
                    s.mem[k] = x
                    out.append((V("b", pred=x), s))
                return out
            if name in ("heap_ptr", "raw") and not av:
                return [(obj("id:" + op.name, ty), self.note(st, "id"))]
            if name == "value" and not av and ty in ("long", "double", "bool"):
                k = "val:" + op.name
                if k not in it.interned:
                    it.interned[k] = {"long": lambda: integer(MIN, MAX, "long", k), "double": lambda: flt(-INF, INF, True, k), "bool": lambda: V("b", pred=None)}[ty]()
                v = it.interned[k]
                if ty == "bool":
                    out = []
                    for x in ((True, False) if k not in st.mem else (st.mem[k],)):
                        s = st.copy()
                        s.mem[k] = x
                        out.append((V("b", pred=x), self.note(s, "value")))
                    return out
                return [(v, self.note(st, "value"))]
        r = super().intercept(it, fn, n, q, o, av, st)
        if r is None and n.d.get("ck") == "ctor" and len(av) >= 1 and self.operand(av[0]) and self.prog.derives(ty, VM + "Value"):
            return [(av[0], st)]
        return r


def kinds(prog, rep):
    rep.rule("equal-kinds", "values of two types are equal only if both are numbers or both are strings; otherwise by value or identity of one type")
    rep.rule("identity-hash", "the hash of a type compared by identity depends on its identity only")
    eq, h = one(prog, VM + "equal", 2), one(prog, VM + "hash", 1)
    m = Kinds(prog)
    names = [n for n, _ in prog.enums[VM + "ValueType"]["c"]]
    identity = set()
    for x in names:
        for y in names:
            m.set([Operand("a", x), Operand("b", y)])
            m.it.paths = 0
            res = m.it.run(eq, [obj("a"), obj("b")], None)
            can = set()
            for v, s in res:
                d = m.it.decide(v, s) if v.kind == "b" else None
                can |= {d} if d is not None else {True, False}
                seen = s.mem.get("seen", frozenset())
                if x == y and d is True and x not in NUMBERS | STRINGS and not seen & {"value", "id"}:
                    if "same" in seen:
                        identity.add(x)
                    elif x not in ("Null", "Undefined"):
                        rep.bad("equal-kinds", eq.loc, "%s %s|always" % (x, y), "two values of this type are always equal")
                if x == y and d is False and "same" in seen and x not in NUMBERS | STRINGS:
                    rep.bad("equal-kinds", eq.loc, "%s|irreflexive" % x, "a value of this type can differ from itself")
                if x == y and x not in NUMBERS | STRINGS and "chars" in seen:
                    rep.bad("equal-kinds", eq.loc, "%s|chars" % x, "compared by characters")
            if not can:
                raise AnalysisBroken("equal() of %s and %s has no result" % (x, y))
            allowed = x == y or {x, y} <= NUMBERS or {x, y} <= STRINGS
            if not allowed:
                rep.check(can == {False}, "equal-kinds", eq.loc, "%s %s" % (x, y), "values of these types can be equal, but their hashes are unrelated")
            else:
                rep.check(True in can, "equal-kinds", eq.loc, "%s %s" % (x, y), "values of these types are never equal")
            if {x, y} <= STRINGS:
                for v, s in res:
                    d = m.it.decide(v, s)
                    seen = s.mem.get("seen", frozenset())
                    if "chars" not in seen:
                        both = x == y == "String" and s.mem.get(("interned", "a")) and s.mem.get(("interned", "b")) and seen & {"same", "notsame"}
                        ident = "same" in seen and d is True
                        rep.check(bool(both or ident), "string-hash", eq.loc, "equal %s %s" % (x, y), "strings are compared by something else than their characters (or the identity of interned strings)")
                    else:
                        rep.ok("string-hash", "equal %s %s" % (x, y))
    for x in names:
        m.set([Operand("a", x)])
        m.it.paths = 0
        if x in NUMBERS | {"Boolean"}:
            continue
        if x in STRINGS:
            for v, s in m.it.run(h, [obj("a")], None):
                rep.check(v.kind == "i" and v.sym == "hash of " + x, "string-hash", h.loc, "hash %s" % x, "the hash of this type is not the hash of its characters")
            continue
        try:
            res = m.it.run(h, [obj("a")], None)
        except AnalysisBroken:
            raise
        for v, s in res:
            seen = s.mem.get("seen", frozenset())
            const = v.kind == "i" and s.range(v)[0] == s.range(v)[1]
            ident = "id" in seen and "value" not in seen and not any(k[0] == "interned" for k in s.mem if isinstance(k, tuple))
            rep.check(const or ident, "identity-hash", h.loc, x, "the hash of this type is not computed from its identity")


FLAG = 1 << 63


def strings(prog, rep):
    """String::hash caches: the word holds the hash below the flag bit.  Both hashes are run for every class of hash of the characters"""
    hs, hl = one(prog, VM + "String::hash", 0), one(prog, VM + "StringSlice::hash", 0)
    flags = [f for f in prog.fns.values() if f.q == VM + "String::interned" and f.cfg is not None]

    def interp(who, args, cached, rng):
        """results: (value, state, word written or None)"""
        calls = set()
        payload = V("o", ty=VM + "String::Payload", path="payload")

        def take(it, fn, n, q, o, av, st):
            ty = bare(n.type)
            if n.name == "view" and not av and o is not None and o.path == "this":
                return [(obj("chars", ty), st)]
            if n.name in ("data", "size") and o is not None and o.kind == "s" and o.path in ("chars", "this"):
                return [(obj("chars.data", ty) if n.name == "data" else integer(0, 1 << 62, ty, "chars.size"), st)]
            if n.name == "layout" and o is not None and o.path == "this":
                return [(obj("layout", ty), st)]
            if n.name == "static_payload" and o is not None and o.path == "layout":
                return [(payload, st)]
            if ty == "tiro::Span<const unsigned char>" and len(av) == 2 and av[0].path == "chars.data":
                if av[1].sym != "chars.size":
                    raise AnalysisBroken("%s: the length of the hashed bytes is not understood" % fn.q)
                return [(obj("bytes", ty), st)]
            if n.d.get("ck") == "ctor" and len(av) == 1 and av[0].kind == "s" and av[0].path in ("chars", "bytes", "chars.data"):
                return [(av[0], st)]
            if len(av) == 1 and av[0].kind == "s" and av[0].path == "bytes" and ty == "unsigned long" and o is None:
                calls.add(n.name)
                if "H" not in it.interned:
                    it.interned["H"] = integer(rng[0], rng[1], ty, "H")
                return [(it.interned["H"], st)]
            return None
        it = Interp(prog, opaque=opaque, intercept=take)
        from ..absint import State
        st = State()
        if cached is not None:
            st.mem[(payload.id, "hash")] = integer(cached[0], cached[1], "unsigned long", "W")
        return [(v, s, s.mem.get((payload.id, "hash"))) for v, s in it.run(who, args, obj("this"), st)], calls
    R = lambda v, s: s.range(v)[:2]
    names = set()
    for rng in ((0, 0), (1, 1), (2, FLAG - 1), (FLAG, FLAG), (FLAG + 1, FLAG + 1), (FLAG + 2, 2 * FLAG - 1)):
        slices, c = interp(hl, [], None, rng)
        names |= c
        want = sorted({R(v, s) + (v.sym,) for v, s, _ in slices}, key=str)
        for lo, hi, sym in want:
            rep.check(lo >= 0 and hi < FLAG, "string-hash", hl.loc, "range|%d" % rng[0], "the hash of characters can use the bit of the interned flag")
        for w in ((0, 0), (FLAG, FLAG)):
            res, c = interp(hs, [], w, rng)
            names |= c
            got = sorted({R(v, s) + (v.sym,) for v, s, _ in res}, key=str)
            rep.check([g[:2] for g in got] == [g[:2] for g in want] and (rng[0] != rng[1] or len(got) == 1), "string-hash", hs.loc, "agree|%d|%d" % (rng[0], w[0] >> 63),
                      "String::hash gives %s where StringSlice::hash gives %s" % (got, want))
            for v, s, word in res:
                if word is None:
                    continue
                lo, hi = R(word, s)
                rep.check((lo >= FLAG) == (w[0] >= FLAG) and (hi >= FLAG) == (w[0] >= FLAG), "string-hash", hs.loc, "flag|%d|%d" % (rng[0], w[0] >> 63),
                          "computing the hash changes the interned flag")
    rep.check(len(names) == 1, "string-hash", hs.loc, "function", "different functions hash the characters: %s" % sorted(names))
    for w in ((1, 1), (12345, 12345), (FLAG - 1, FLAG - 1), (FLAG + 1, FLAG + 1), (2 * FLAG - 1, 2 * FLAG - 1)):
        res, c = interp(hs, [], w, (0, 0))
        for v, s, word in res:
            rep.check(R(v, s) == (w[0] % FLAG,) * 2 and R(word, s) == w, "string-hash", hs.loc, "cached|%d" % w[0], "a cached hash is not returned unchanged")
        for f in flags:
            if len(f.params) != 1:
                continue
            for on in (True, False):
                res, c = interp(f, [V("b", pred=on)], w, (0, 0))
                for v, s, word in res:
                    rep.check(R(word, s) == (w[0] % FLAG + (FLAG if on else 0),) * 2, "string-hash", f.loc, "interned|%d|%d" % (w[0], on), "setting the interned flag changes the cached hash")
    writers = set()
    for f in prog.fns.values():
        if not f.q.startswith(VM) or f.cfg is None:
            continue
        for n in f.nodes:
            if n is not None and n.k == "member" and n.name == "hash" and n.child(0) is not None and bare(n.child(0).type).replace(" *", "").endswith("String::Payload"):
                writers.add(f.q)
    rep.check(writers <= {hs.q, VM + "String::interned"} and writers, "string-hash", hs.loc, "writers", "the cached hash is accessed by %s" % sorted(writers - {hs.q, VM + "String::interned"}))


def keys(prog, rep):
    """every entry that is built holds the hash of its own key; every bucket is chosen from such a hash; keys are compared by equal()"""
    rep.rule("key-hash", "the hash stored with or used to look for a key is the hash of that key")
    from ..guards import Engine, ctx_of
    import re
    eng = Engine(prog)
    E = VM + "HashTableEntry"
    seen = 0
    for f in prog.fns.values():
        if f.cfg is None or not f.q.startswith(VM):
            continue
        for n in f.nodes:
            if n is None or n.k not in ("call", "construct") or not n.args:
                continue
            if bare(n.type) == E and len(n.args) == 3 and n.d.get("ck") == "ctor":
                c = ctx_of(f)
                h, k = c.path(n.args[0]), c.path(n.args[1])
                m = re.match(r"(?:tiro::vm::HashTableEntry::)?make_hash\((.*)\)$", h or "")
                own = re.match(r"(.*)\.hash\(\)$", h or "")
                good = False
                if m:
                    x = re.sub(r"^(?:tiro::vm::)?hash\((.*)\)$", r"\1", m.group(1))
                    good = x == k
                    if not good:
                        for fact in eng.guards(f).at(n):
                            if fact[0] == "t" and "key_equal(" in fact[1] and x in fact[1] and k in fact[1]:
                                good = True
                            if fact[0] == "t" and re.search(r"\bequal\(", fact[1]) and x in fact[1] and k in fact[1]:
                                good = True
                elif own:
                    good = k == own.group(1) + ".key()"
                elif h is None or k is None or (n.args[0].k == "ref" and any(p.id == n.args[0].decl for p in f.params)):
                    good = None
                seen += 1
                if good is not None:
                    rep.check(good, "key-hash", n.loc, "%s|entry" % f.q, "an entry with key %s is built with the hash %s" % (k, h))
    if not seen:
        raise AnalysisBroken("no construction of HashTableEntry found")
    mk = [f for f in prog.fns.values() if f.q == E + "::make_hash" and f.cfg is not None]
    dele = [f for f in prog.fns.values() if f.q == E + "::is_deleted" and f.cfg is not None]
    if not mk or not dele:
        raise AnalysisBroken("HashTableEntry::make_hash or is_deleted not found")
    for f in mk:
        if bare(f.params[0].type) != "unsigned long":
            continue
        hit = []

        def take(it, fn, n, q, o, av, st):
            return None
        for r in ((0, 0), (1, (1 << 64) - 2), ((1 << 64) - 1, (1 << 64) - 1)):
            it = Interp(prog, opaque=opaque, intercept=take)
            for v, s in it.run(f, [integer(r[0], r[1], "unsigned long", "x")], None):
                w = s.mem.get((v.id, "value")) if v.kind == "o" else v
                if w is None or w.kind != "i":
                    raise AnalysisBroken("make_hash: result %r not understood" % (v,))
                lo, hi = s.range(w)[:2]
                d = Interp(prog, opaque=opaque)
                from ..absint import State
                st = State()
                this = V("o", ty=E)
                st.mem[(this.id, "hash_")] = integer(lo, hi, "unsigned long")
                can = set()
                for b, s2 in d.run(dele[0], [], this, st):
                    x = d.decide(b, s2)
                    can |= {x} if x is not None else {True, False}
                rep.check(can == {False}, "key-hash", f.loc, "deleted|%d" % r[0], "the hash of a key can be the mark of a deleted entry")
    ke = one(prog, VM + "HashTable::key_equal", 2)

    def cmp(it, fn, n, q, o, av, st):
        for nm in ("same", "equal"):
            if n.name == nm and (len(av) == 2 or (o is not None and len(av) == 1)) and bare(n.type) == "bool":
                names = {x.path for x in ([o] if o is not None else []) + av}
                if names == {"a", "b"}:
                    out = []
                    for t in ((True, False) if ("k", nm) not in st.mem else (st.mem[("k", nm)],)):
                        s = st.copy()
                        s.mem[("k", nm)] = t
                        out.append((V("b", pred=t), s))
                    return out
        if n.d.get("ck") == "ctor" and len(av) == 1 and av[0].path in ("a", "b"):
            return [(av[0], st)]
        return None
    it = Interp(prog, opaque=lambda t: opaque(t) or t.q in (VM + "equal", VM + "Value::same"), intercept=cmp)
    for v, s in it.run(ke, [obj("a"), obj("b")], None):
        d = it.decide(v, s)
        sm, e = s.mem.get(("k", "same")), s.mem.get(("k", "equal"))
        want = bool(sm or e)
        rep.check(d is not None and d == want and (want or (e is False)), "key-hash", ke.loc, "key_equal|%s|%s" % (sm, e), "keys are compared by something else than identity or equal()")
    # a found entry was compared with key_equal
    for f in prog.fns.values():
        if f.cfg is None or f.cls != VM + "HashTable":
            continue
        for n in f.nodes:
            if n is None or n.k != "return" or n.child(0) is None:
                continue
            if "std::pair<unsigned long, unsigned long>" in bare(f.ret) and f.ret.startswith("std::optional"):
                t = n.text()
                if t.replace("return", "").strip(" {};") in ("", "std::nullopt", "nullopt") or "{}" in t:
                    continue
                e = n.child(0)
                while e is not None and e.k in ("cast", "construct", "call") and len(e.args if e.k != "cast" else [e.child(0)]) == 1 and not (e.k == "call" and e.d.get("ck") != "ctor"):
                    e = e.args[0] if e.k != "cast" else e.child(0)
                rep.check(only_if(f, n, lambda c, t: t and any(x.k == "call" and x.name in ("key_equal", "equal", "same") for x in c.walk())), "key-hash", n.loc, "%s|found" % f.q,
                          "an entry is reported as found without comparing its key")


def run(prog, rep):
    rep.rule("string-hash", "both string types compare and hash their characters")
    rep.assumptions += ["numbers: between the points that are enumerated, equality and hash are covered by classes with terms (float to integer conversion and back)",
                        "interned strings are unique per content (C10 does not decide the interning table; it is a hash table keyed by the characters)"]
    numbers(prog, rep)
    kinds(prog, rep)
    strings(prog, rep)
    keys(prog, rep)
