"""Rules: the arithmetic instructions of the bytecode interpreter and the compile time evaluator are executed by an interval interpreter over classes of
operands that partition all pairs of 64 bit integers, floats and other values. undefined-operation: no division, shift, signed operation or
float to integer conversion reached by them can be undefined for any operand of a class. exact-result: the result of a class is the exact
mathematical result (range and term), or an error; classes whose exact result never fits always give an error. unreviewed-operation: every float
to integer conversion and every signed 64 bit operation on numbers of scripts in the source was part of the analysis."""
from ..absint import Interp, Budget, bare, integer, obj, V
from ..arith import (Interpreter, Compile, Operand, opcodes, opaque, INTS, FLTS, MIN, MAX, hull, same_function)
from ..facts import AnalysisBroken

IR = "tiro::ir::"
BIN = {"Plus": "+", "Minus": "-", "Multiply": "*", "Divide": "/", "Modulus": "%", "Power": "**"}
SHIFT = {"LeftShift": "<<", "RightShift": ">>"}
KINDS = {"div", "div-overflow", "overflow", "shift", "shift-negative", "float-cast"}
NUMERIC = {"tiro::vm::Integer::value", "tiro::vm::SmallInteger::value", "tiro::vm::HeapInteger::value", "tiro::vm::Number::convert_int",
           "tiro::vm::Number::try_extract_int", "tiro::vm::Integer::try_extract_size"}
FCAST = {"double", "float"}
SIGNED = {"int", "long", "long long", "short"}


class Hook:
    def __init__(self, rep):
        self.rep, self.seen, self.fails, self.where = rep, set(), {}, None

    def __call__(self, kind, fn, n, st, ok, *detail):
        if kind not in KINDS:
            return
        if kind == "float-cast":
            c = n.child(0)
            if c is None or bare(c.d.get("t") or "") not in FCAST:
                return
        self.seen.add((fn.usr, n.id))
        if ok is not True:
            self.fails.setdefault((fn.q, kind, n.text()[:80]), (n.loc, self.where))


TEXT = {"div": "division by zero is possible", "div-overflow": "INT64_MIN / -1 is possible", "overflow": "signed overflow is possible",
        "shift": "the shift amount can be out of range", "shift-negative": "a negative number can be shifted to the left", "float-cast": "the float can be outside the range of the integer type"}


def cells(name, kinds=("int", "float")):
    out = []
    if "int" in kinds:
        out += [Operand(name, "int", *r) for r in INTS]
    if "float" in kinds:
        out += [Operand(name, "float", *r) for r in FLTS]
    return out


def others(name):
    return [Operand(name, k) for k in ("null", "true", "string")]


def operators(prog):
    out = {"bin": [], "un": []}
    for k, kind in ((IR + "BinaryOpType", "bin"), (IR + "UnaryOpType", "un")):
        if k not in prog.enums:
            raise AnalysisBroken("enum %s not found" % k)
        for n, v in prog.enums[k]["c"]:
            out[kind].append((n, int(v)))
    return out


def evaluator(prog, name, n):
    fs = [f for f in prog.fns.values() if f.q == IR + name and len(f.params) == n and f.cfg is not None]
    if len(fs) != 1:
        raise AnalysisBroken("%s not found" % name)
    return fs[0]


def compile_outcomes(C, prog, kind, value, ops):
    f = evaluator(prog, "eval_binary_operation" if kind == "bin" else "eval_unary_operation", 3 if kind == "bin" else 2)
    C.set(ops)
    C.it.paths = 0
    et = IR + ("BinaryOpType" if kind == "bin" else "UnaryOpType")
    args = [integer(value, value, et)] + [obj(o.name) for o in ops]
    return C.outcomes(C.it.run(f, args, None))


def exact(rep, side, name, op, ops, res):
    """compares the outcomes of one class with the exact result"""
    A = (ops[0].lo, ops[0].hi)
    if op == "neg":
        h = (-A[1], -A[0])
        spec = "-(a)"
        B = None
    else:
        B = (ops[1].lo, ops[1].hi)
        h = hull(op, A, B)
        spec = "(a %s b)" % op
    cons = "%s|%s|%s" % (side, name, " ".join(map(repr, ops)))
    vals = [o for o in res if o.kind != "err"]
    errs = [o for o in res if o.kind == "err"]
    loc = "src/vm/math.cpp" if side == "run time" else "src/compiler/ir_gen/const_eval.cpp"
    if not res:
        return None
    if h is None:
        return rep.check(not vals, "exact-result", loc, cons, "the operation is not defined for these operands but a value is returned: %s" % vals)
    for v in vals:
        if v.kind != "int":
            rep.bad("exact-result", loc, cons, "integer operands give a result of kind %s" % v.kind)
            return
    lo, hi = h
    if (lo is not None and lo > MAX) or (hi is not None and hi < MIN):
        return rep.check(not vals, "exact-result", loc, cons, "no exact result fits into 64 bit but a value is returned: %s" % vals)
    inside = lo is not None and hi is not None and MIN <= lo and hi <= MAX
    if not inside and op != "**" and not errs:
        return rep.bad("exact-result", loc, cons, "some exact results (%s..%s) do not fit into 64 bit but no error is raised" % h)
    for v in vals:
        if lo is not None and v.hi < lo or hi is not None and v.lo > hi:
            return rep.bad("exact-result", loc, cons, "the result %r lies outside the range of exact results %s..%s" % (v, lo, hi))
        if lo is not None and lo == hi and (v.lo, v.hi) != (lo, hi):
            if v.lo == v.hi:
                return rep.bad("exact-result", loc, cons, "the result %r is not the exact result %s" % (v, lo))
        if v.sym and v.lo != v.hi and op != "**":
            s = same_function(v.sym, spec, v.a, v.b)
            if s is False:
                return rep.bad("exact-result", loc, cons, "the result is computed as %s" % v.sym)
    if op == "**" and not inside and not errs and (lo is None or hi is None or hi > MAX or lo < MIN):
        return rep.bad("exact-result", loc, cons, "some exact results do not fit into 64 bit but no error is raised")
    rep.ok("exact-result", cons)


def small_integers(prog, rep, hook):
    """decoding an encoded small integer gives the same number, and only numbers in range are encoded"""
    rep.rule("small-integer", "SmallInteger::value(SmallInteger::make(x)) == x for every x in range, and other numbers are not encoded")
    one = lambda q, n: [f for f in prog.fns.values() if f.q == q and len(f.params) == n and f.cfg is not None]
    mk, va, gi = one("tiro::vm::SmallInteger::make", 1), one("tiro::vm::SmallInteger::value", 0), one("tiro::vm::Context::get_integer", 1)
    if not (mk and va and gi):
        raise AnalysisBroken("SmallInteger::make, SmallInteger::value or Context::get_integer not found")
    enc = []

    def take(it, fn, n, q, o, av, st):
        if q.endswith("SmallInteger::make") and len(av) == 1:
            enc.append(st.range(av[0])[:2])
            return [(obj("small", "tiro::vm::SmallInteger"), st)]
        if q.endswith("HeapInteger::make"):
            return [(obj("heap", "tiro::vm::HeapInteger"), st)]
        return None
    it = Interp(prog, hook=hook, opaque=opaque, intercept=take)
    hook.where = "any integer"
    it.run(gi[0], [integer(MIN, MAX, "long", "a")], None)
    if not enc:
        raise AnalysisBroken("get_integer does not use small integers")
    lo, hi = min(r[0] for r in enc), max(r[1] for r in enc)
    for r in ((lo, lo), (lo, -1), (0, 0), (1, hi), (hi, hi)):
        cap = []

        def code(it, fn, n, q, o, av, st):
            if n.name == "from_embedded_integer" and len(av) == 1:
                cap.append((av[0], st))
                return [(obj("encoded", "tiro::vm::SmallInteger"), st)]
            if n.name == "raw" and not av and cap:
                return [(cap[-1][0], st)]
            if n.name == "is_embedded_integer":
                return [(V("b", pred=True), st)]
            return None
        it = Interp(prog, hook=hook, opaque=opaque, intercept=code)
        hook.where = "small integers %d..%d" % r
        it.run(mk[0], [integer(r[0], r[1], "long", "a")], None)
        if not cap:
            rep.bad("small-integer", mk[0].loc, "make|%d..%d" % r, "numbers of this range are given to SmallInteger::make but it has no result for them")
        for c in list(cap):
            cap[:] = [c]
            for v, s in it.run(va[0], [], obj("this")):
                same = same_function(v.sym, "a", r, None) if v.kind == "i" and v.sym else None
                if same is None and v.kind == "i" and v.lo == v.hi and r[0] == r[1]:
                    same = v.lo == r[0]
                if same is None:
                    raise AnalysisBroken("SmallInteger::value: %r is not understood" % (v,))
                rep.check(same, "small-integer", va[0].loc, "value|%d..%d" % r, "small integers are decoded as %s" % v.sym)


def pointers(n):
    """a pointer difference, or an expression of literals"""
    cs = [c for c in (n.child(0), n.child(1) if n.k == "bin" else None) if c is not None]
    return any(bare(c.d.get("t") or "").endswith("*") for c in cs) or all(c.k in ("int", "lit", "enum") for c in cs)


def run(prog, rep):
    rep.rule("undefined-operation", "no operand class reaches a division by zero, signed overflow, bad shift amount or out of range conversion")
    rep.rule("exact-result", "an arithmetic operation on integers gives the exact result of its operand class or an error")
    rep.rule("unreviewed-operation", "every float to integer conversion and signed operation on script numbers is reached by the analysis")
    rep.assumptions += ["absl, fmt and standard library functions behave as documented",
                        "the two classes 3..62 and 64..INT64_MAX-1 and the float classes are closed under the decisions of the code: other boundaries inside a class are handled by interval reasoning, not enumeration"]
    hook = Hook(rep)
    oc = opcodes(prog)
    ops = operators(prog)
    I, C = Interpreter(prog, hook), Compile(prog, hook)
    done = 0

    def both(kind, name, val, operands, peel=None):
        nonlocal done
        q = IR + ("BinaryOpType::" if kind == "bin" else "UnaryOpType::") + name
        out = {}
        I.it.peel = C.it.peel = peel or 8 if name == "Power" and kind == "bin" and all(o.kind == "int" for o in operands) and (operands[0].hi < -1 or operands[0].lo > 1) else 2
        hook.where = "%s %s" % (name, " ".join(map(repr, operands)))
        if q in oc:
            out["run time"] = I.outcome(oc[q], operands)
        out["compile time"] = compile_outcomes(C, prog, kind, val, operands)
        done += 1
        return out
    for kind, name, val in [("bin", n, v) for n, v in ops["bin"]] + [("un", n, v) for n, v in ops["un"]]:
        if kind == "bin":
            pairs = [(a, b) for a in cells("a") for b in cells("b")]
            pairs += [(a, b) for a in cells("a")[:1] for b in others("b")] + [(a, b) for a in others("a") for b in cells("b")[:1]]
        else:
            pairs = [(a,) for a in cells("a") + others("a")]
        for t in pairs:
            try:
                try:
                    out = both(kind, name, val, t)
                except Budget:
                    both(kind, name, val, t, 2)
                    out = {}
            except (Budget, AnalysisBroken) as e:
                raise AnalysisBroken("operator %s on %s: %s" % (name, t, e))
            if all(o.kind == "int" for o in t):
                for side, res in out.items():
                    if name in BIN and kind == "bin":
                        exact(rep, side, name, BIN[name], t, res)
                    elif kind == "un" and name == "Minus":
                        exact(rep, side, "unary " + name, "neg", t, res)
                    elif name in SHIFT and res:
                        bad = t[1].hi < 0 or t[1].lo > 63
                        rep.check(not bad or not any(o.kind != "err" for o in res), "exact-result", "src/compiler/ir_gen/const_eval.cpp", "%s|%s|%s" % (side, name, " ".join(map(repr, t))),
                                  "a shift by a negative or too large amount returns a value")
    rep.note("%d operand classes were executed for %d operators" % (done, len(ops["bin"]) + len(ops["un"])))
    small_integers(prog, rep, hook)
    # conversions and arithmetic outside of the operators
    roots = []
    for f in prog.fns.values():
        if f.cfg is None or not f.relfile.startswith("src/"):
            continue
        numeric = None
        for n in f.walk():
            t = bare(n.d.get("t") or "")
            hit = False
            if n.k == "cast" and t in INTISH:
                c = n.child(0)
                hit = c is not None and bare(c.d.get("t") or "") in FCAST
            elif n.k in ("bin", "un") and n.op in ("+", "-", "*", "/", "%", "<<", "+=", "-=", "*=", "/=", "%=", "<<=", "++", "--") and t in ("long", "long long") \
                    and not pointers(n):
                if numeric is None:
                    numeric = any(m.k == "call" and (m.q in NUMERIC or any(x.q in NUMERIC for x in prog.targets(m))) for m in f.walk())
                hit = numeric
            if hit and (f.usr, n.id) not in hook.seen:
                roots.append((f, n))
    for f in {f.usr: f for f, n in roots}.values():
        it = Interp(prog, hook=hook, opaque=opaque, maxpaths=20000, maxdepth=24)
        hook.where = "any argument"
        try:
            it.run(f)
        except Budget:
            pass
    for f, n in roots:
        rep.check((f.usr, n.id) in hook.seen, "unreviewed-operation", n.loc, "%s|%s" % (f.q, n.text()[:80]), "this operation on numbers is not reached by the analysis")
    for (q, kind, text), (loc, where) in sorted(hook.fails.items()):
        rep.bad("undefined-operation", loc, "%s|%s|%s" % (q, kind, text), "%s in '%s' (for %s)" % (TEXT[kind], text, where))
    good = len(hook.seen)
    for u, i in sorted(hook.seen):
        rep.ok("undefined-operation", "%s: %s" % (prog.fns[u].q, prog.fns[u].nodes[i].text()[:60]))
    rep.require("exact-result", 600, "operand classes")
    rep.require("undefined-operation", 10, "operations")


INTISH = {"int", "long", "long long", "short", "unsigned int", "unsigned long", "unsigned long long", "unsigned char", "signed char", "char"}
