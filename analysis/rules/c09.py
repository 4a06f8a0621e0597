"""Rules: the bytecode interpreter's instruction for an operator and the compile time evaluator are executed by an interval interpreter on the same operand
classes. same-outcome: an operator that always raises an error (or is not implemented) for a class of operands is never folded for it. same-value: the folded value can be the value of the run time: same kind, overlapping range, same term over the operands, same
truth value. commutative-operators: operands are only reordered for operators whose result does not depend on the order. merged-constants: constants of
different bits (0.0 and -0.0) are not merged by value numbering or member deduplication. format-agreement: interpolated constants produce the text of the run time.
folded-results: a result of the evaluator is only used as a constant after it was tested for errors."""
import math

from ..absint import Interp, V, Budget, bare, integer, flt, obj
from ..arith import Interpreter, Compile, Operand, opcodes, parse, same_function, opaque, INTS, FLTS, MIN, MAX
from ..facts import AnalysisBroken
from ..paths import switches
from .c08 import operators, compile_outcomes, cells, IR

EVAL = ("eval_binary_operation", "eval_unary_operation")


def fvalue(t, env):
    if isinstance(t, int):
        return float(t)
    if t[0] == "var":
        return env[t[1]]
    if t[0] == "neg":
        return -fvalue(t[1], env)
    if t[0] == "call":
        name = t[1].split("::")[-1]
        xs = [fvalue(x, env) for x in t[2]]
        if name == "float":
            return xs[0]
        if name in ("pow", "fmod", "remainder", "fmax", "fmin", "atan2", "hypot", "fdim", "floor", "trunc", "ceil", "round", "fabs", "sqrt"):
            f = {"fdim": lambda x, y: max(x - y, 0.0), "fmax": max, "fmin": min, "round": lambda x: math.floor(x + 0.5)}.get(name) or getattr(math, name)
            return float(f(*xs))
        raise ValueError(t)
    a, b = fvalue(t[1], env), fvalue(t[2], env)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[t[0]]()


def same_float(x, y):
    """False if two terms are different functions"""
    if x == y:
        return True
    try:
        t1, t2 = parse(x), parse(y)
        for a, b in ((7.5, 2.25), (5.5, 3.0), (2.0, 8.0), (9.0, 0.5), (3.75, 7.0)):
            v, w = fvalue(t1, {"a": a, "b": b}), fvalue(t2, {"a": a, "b": b})
            if v != w:
                return False
    except (ValueError, KeyError, IndexError, TypeError, ArithmeticError):
        return None
    return True


def kinds(res):
    out = set()
    for o in res:
        out.add("err" if o.kind == "err" else "val")
    return out


def differ(k, r):
    """why no value of the compile time outcomes k can be a value of the run time outcomes r"""
    for x in k:
        why = []
        for y in r:
            if x.kind != y.kind:
                why.append("%s instead of %s" % (x.kind, y.kind))
            elif x.kind == "bool":
                if x.lo == y.lo:
                    break
                why.append("%s instead of %s" % (x.lo, y.lo))
            elif x.kind == "int":
                if x.hi < y.lo or y.hi < x.lo:
                    why.append("%r instead of %r" % (x, y))
                elif x.sym and y.sym and x.lo != x.hi and same_function(x.sym, y.sym, overlap(x.a, y.a), overlap(x.b, y.b)) is False:
                    why.append("%s instead of %s" % (x.sym, y.sym))
                else:
                    break
            elif x.kind == "float":
                if x.lo > x.hi and x.nan and y.lo <= y.hi and not y.nan:
                    why.append("NaN instead of %r" % y)
                elif x.lo <= x.hi and y.lo <= y.hi and (x.hi < y.lo or y.hi < x.lo) and not (x.nan and y.nan):
                    why.append("%r instead of %r" % (x, y))
                elif x.sym and y.sym and not (x.lo == x.hi == y.lo == y.hi) and same_float(x.sym, y.sym) is False:
                    why.append("%s instead of %s" % (x.sym, y.sym))
                else:
                    break
            else:
                break
        else:
            return "; ".join(sorted(set(why)))
    return None


def overlap(r, s):
    if r is None or s is None:
        return r or s
    return (max(r[0], s[0]), min(r[1], s[1]), frozenset(r[2]) | frozenset(s[2]))


def run(prog, rep):
    rep.rule("same-outcome", "no operand class is folded although the run time always raises an error for it")
    rep.rule("same-value", "the folded value is a possible value of the run time instruction")
    oc, ops = opcodes(prog), operators(prog)
    I, C = Interpreter(prog), Compile(prog)
    ec = "src/compiler/ir_gen/const_eval.cpp"
    sym = {}
    for kind, name, val in [("bin", n, v) for n, v in ops["bin"]] + [("un", n, v) for n, v in ops["un"]]:
        q = IR + ("BinaryOpType::" if kind == "bin" else "UnaryOpType::") + name
        if q not in oc:
            raise AnalysisBroken("no instruction found for %s" % q)
        rest = lambda n: [Operand(n, k) for k in ("null", "true", "false", "string", "symbol")]
        if kind == "bin":
            tuples = [(a, b) for a in cells("a") for b in cells("b")]
            tuples += [(a, b) for a in cells("a")[3:12:8] for b in rest("b")] + [(a, b) for a in rest("a") for b in cells("b")[3:12:8] + rest("b")]
        else:
            tuples = [(a,) for a in cells("a") + rest("a")]
        unimplemented, folded = True, None
        for t in tuples:
            cons = "%s|%s" % (q.rsplit("::", 2)[-2] + "::" + name, " ".join(map(repr, t)))
            deep = name == "Power" and kind == "bin" and all(o.kind == "int" for o in t) and (t[0].hi < -1 or t[0].lo > 1)
            r = k = None
            for peel in ((8, 2) if deep else (2,)):
                I.it.peel = C.it.peel = peel
                try:
                    r = I.outcome(oc[q], list(t))
                    k = compile_outcomes(C, prog, kind, val, list(t))
                    break
                except Budget as e:
                    if peel == 2:
                        raise AnalysisBroken("%s: %s" % (cons, e))
            if not k:
                rep.bad("same-outcome", ec, cons, "the evaluation at compile time never returns for these operands (it aborts)")
                continue
            kk = kinds(k)
            if not r:
                if kk == {"val"}:
                    folded = folded or t
                continue
            unimplemented = False
            rk = kinds(r)
            kv, rv = [o for o in k if o.kind != "err"], [o for o in r if o.kind != "err"]
            if "val" not in rk and "err" not in kk:
                rep.bad("same-outcome", ec, cons, "the run time raises an error for these operands but the compiler folds the operation to %s" % kv[:2])
                continue
            rep.ok("same-outcome", cons)
            if kv and rv:
                why = differ(kv, rv)
                rep.check(why is None, "same-value", ec, cons, "the folded value differs from the value at run time: %s" % why)
                s = {o.sym for o in kv if o.kind == "int" and o.sym}
                if s:
                    sym.setdefault(name, s)
        if unimplemented:
            rep.check(folded is None, "same-outcome", ec, "not implemented|%s" % q.split("::", 2)[-1],
                      "the instruction is not implemented by the interpreter (it throws an error) but the compiler folds the operation, for example for %s" % (folded,))
    commutative(prog, rep, C, ops)
    merged(prog, rep)
    formats(prog, rep)
    results(prog, rep)
    rep.require("same-outcome", 3000, "operand classes")
    rep.require("same-value", 1500, "operand classes")


def commutative(prog, rep, C, ops):
    rep.rule("commutative-operators", "an operator whose operands are reordered gives the same outcome for both orders")
    preds = {}
    for f in prog.fns.values():
        if f.cfg is None or not f.relfile.startswith("src/compiler/ir"):
            continue
        swaps = [n for n in f.walk() if n.k == "call" and n.name == "swap" and len(n.args) == 2 and all(a is not None and a.k == "member" for a in n.args)
                 and {a.name for a in n.args} == {"left", "right"}]
        if not swaps:
            continue
        for n in f.walk():
            if n.k == "call":
                for t in prog.targets(n):
                    if t.cfg is not None and bare(t.ret) == "bool" and len(t.params) == 1 and bare(t.params[0].type) == IR + "BinaryOpType":
                        preds[t.usr] = t
    for t in preds.values():
        for name, val in ops["bin"]:
            it = Interp(prog, opaque=opaque)
            r = {it.decide(v, s) for v, s in it.run(t, [integer(val, val, IR + "BinaryOpType")], None)}
            if r != {True}:
                if r != {False}:
                    raise AnalysisBroken("%s(%s) is not understood: %s" % (t.q, name, r))
                continue
            bad = None
            for A, B in ((2, 1), (3, 2), (7, 3), (-5, 2)):
                o = []
                for x, y in ((A, B), (B, A)):
                    o.append(sorted((v.kind, v.lo, v.hi) for v in compile_outcomes(C, prog, "bin", val, [Operand("a", "int", x, x), Operand("b", "int", y, y)])))
                if o[0] != o[1] and all(x[0] in ("err", "bool") or x[1] == x[2] for x in o[0] + o[1]):
                    bad = (A, B)
            rep.check(bad is None, "commutative-operators", t.loc, "%s|%s" % (t.q, name), "the operator is treated as commutative but its result depends on the order, for example of %s" % (bad,))


def equal_zeros(prog, rec):
    """what operator== says about 0.0 and -0.0: True if they are certainly treated as equal"""
    fs = [f for f in prog.fns.values() if f.name == "operator==" and len(f.params) == 2 and bare(f.params[0].type) == rec and f.cfg is not None]
    if len(fs) != 1:
        return True

    def sign(it, fn, n, q, o, av, st):
        if n.name in ("signbit", "copysign") and av and av[0].sym in ("a", "b"):
            return [(V("b", pred=av[0].sym == "b"), st)]
        return None
    it = Interp(prog, opaque=opaque, intercept=sign)
    for i, x in enumerate("ab"):
        it.interned["%s.value" % x] = flt(0.0, 0.0, False, x)
    r = {it.decide(v, s) for v, s in it.run(fs[0], [obj("a", rec), obj("b", rec)], None)}
    return r == {True}


MERGE = {"memoize_value": IR + "FloatConstant", "add_member": "tiro::BytecodeMember::Float"}


def merged(prog, rep):
    rep.rule("merged-constants", "no path merges the constant -0.0 with a constant that compares equal")
    found = set()
    for f in prog.fns.values():
        if f.cfg is None or not f.relfile.startswith("src/compiler/") or not f.params:
            continue
        p = [bare(x.type) for x in f.params]
        if not (p == [IR + "Constant"] or p == ["double"]):
            continue
        if not any(n.k == "call" and n.name in MERGE for n in f.walk()):
            continue
        names = {n.name for n in f.walk() if n.k == "call" and n.name in MERGE}
        found |= names
        hit = []

        class M(Compile):
            def intercept(self, it, fn, n, q, o, av, st):
                if n.name in MERGE and n.k == "call":
                    hit.append(n)
                    return [(obj("merged"), st)]
                if n.name == "signbit" and av:
                    return [(V("b", pred=True), st)]
                if n.name in ("define_new", "push_back", "make_definition", "make_constant", "make_float"):
                    return [(obj(n.name), st)]
                return super().intercept(it, fn, n, q, o, av, st)
        m = M(prog)
        op = Operand("a", "float", 0.0, 0.0)
        m.set([op])
        try:
            m.it.run(f, [obj("a", p[0]) if p[0] != "double" else m.nums["a"]], obj("this", f.cls))
        except Budget:
            raise AnalysisBroken("%s: too many paths" % f.q)
        bad = [n for n in hit if equal_zeros(prog, MERGE[n.name])]
        rep.check(not bad, "merged-constants", f.loc, f.q, "the constant -0.0 is merged with 0.0 (which is equal but not the same): %s" % (bad[0].text()[:80] if bad else ""))
    if found != set(MERGE):
        raise AnalysisBroken("functions that merge constants not found: %s" % sorted(set(MERGE) - found))


def literals(f, ids=None):
    out = []
    for n in f.walk() if ids is None else ids:
        if n.k == "str":
            x = n.d.get("s", "").replace("{}", "")
            if x:
                out.append(x)
    return sorted(out)


FORMAT = {"visit_integer": ("SmallInteger", "HeapInteger"), "visit_float": ("Float",), "visit_string": ("String",), "visit_symbol": ("Symbol",), "visit_null": ("Null",)}


def formats(prog, rep):
    rep.rule("format-agreement", "the text of a constant in an interpolated string is built from the same literal parts as at run time")
    vis = [f for f in prog.fns.values() if f.relfile.startswith("src/compiler/ir_gen/const_eval") and f.name.startswith("visit_") and len(f.params) == 1 and f.cfg is not None]
    rts = [f for f in prog.fns.values() if f.q == "tiro::vm::to_string" and len(f.params) == 3 and f.cfg is not None]
    if len(vis) < 6 or len(rts) != 1:
        raise AnalysisBroken("formatting of constants or values not found")
    rt = rts[0]
    sws = [s for s in switches(rt) if s.enum == "tiro::vm::ValueType"]
    if len(sws) != 1:
        raise AnalysisBroken("switch over value types not found in to_string")
    sw = sws[0]
    cm = {int(v): n for n, v in prog.enums["tiro::vm::ValueType"]["c"]}
    byname = {}
    for k, b in sw.cases.items():
        n = k.rsplit("::", 1)[-1] if isinstance(k, str) else cm.get(k)
        byname[n] = b

    def lits(name):
        b = byname.get(name)
        if b is None:
            return None
        others = set(sw.cases.values()) - {b} | {sw.blk.id}
        seen, work, out = set(), [b], []
        first = rt.cfg.blocks[b]
        if not first.elems and len(first.succ) == 1 and first.succ[0] in others:
            work = [first.succ[0]]
            others.discard(first.succ[0])
        while work:
            x = work.pop()
            if x in seen or x in others:
                continue
            seen.add(x)
            blk = rt.cfg.blocks[x]
            for e in blk.elems:
                n = rt.nodes[e] if not isinstance(e, list) else None
                if n is not None and n.k == "str":
                    out.append(n)
                elif n is not None:
                    out += [m for m in n.walk() if m.k == "str"]
            work += [s for s in blk.succ if s >= 0]
        return literals(rt, list({n.id: n for n in out}.values()))
    done = 0
    for f in vis:
        for t in FORMAT.get(f.name, ()):
            r = lits(t)
            if r is None:
                raise AnalysisBroken("to_string has no case for ValueType::%s" % t)
            c = literals(f)
            rep.check(c == r, "format-agreement", f.loc, "%s|%s" % (f.name, t), "constants are formatted with %s, values with %s" % (c, r))
            done += 1
    bools = sorted(x for f in vis if f.name in ("visit_true", "visit_false") for x in literals(f))
    rep.check(bools == lits("Boolean"), "format-agreement", rt.loc, "Boolean", "constants are formatted with %s, values with %s" % (bools, lits("Boolean")))


def results(prog, rep):
    rep.rule("folded-results", "the value of an evaluation result is only taken on paths where it is not an error")
    for f in prog.fns.values():
        if f.cfg is None or not f.relfile.startswith("src/compiler/") or f.relfile.endswith("const_eval.cpp"):
            continue
        calls = [n for n in f.walk() if n.k == "call" and n.name in EVAL]
        if not calls:
            continue
        bad = []

        def take(it, fn, n, q, o, av, st):
            if n.name in EVAL:
                out = []
                for tag in ("err", "val"):
                    r = obj("result:" + tag, IR + "EvalResult")
                    r.env = (tag, None, None)
                    out.append((r, st.copy()))
                return out
            if o is not None and o.kind == "s" and isinstance(o.env, tuple):
                if n.name == "is_error":
                    return [(V("b", pred=o.env[0] == "err"), st)]
                if n.name in ("operator bool", "is_value"):
                    return [(V("b", pred=o.env[0] != "err"), st)]
                if n.name in ("value", "operator*", "operator->"):
                    if o.env[0] == "err":
                        bad.append(n)
                    return [(obj("constant"), st)]
            if n.k == "call" and n.d.get("ck") == "ctor" and len(av) == 1 and isinstance(av[0].env, tuple):
                return [(av[0], st)]
            return None
        it = Interp(prog, opaque=lambda t: opaque(t) or t.name in ("report", "value_of") or t.usr != f.usr and t.cls != f.cls and t.relfile.startswith("src/") and t.name not in EVAL, intercept=take)
        try:
            it.run(f)
        except Budget:
            raise AnalysisBroken("%s: too many paths" % f.q)
        rep.check(not bad, "folded-results", f.loc, f.q, "the value of the result is used although the evaluation may have failed")
