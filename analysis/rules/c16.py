"""C16: Rule `effect-table`: the predicate that decides whether an instruction may be removed is evaluated statically for every kind of value
and every kind of lvalue: kinds that can call code, write memory or raise an error must have a side effect on every path. Rule `mark-roots`,
`mark-operands`, `sweep`: in the elimination function every instruction with an effect and every operand of every terminator and of every
marked instruction is marked, and only unmarked instructions are removed. Rule `removal-sites`: no other code removes instructions from blocks
than this pass and the removal of trivial phi functions."""
import re
from ..facts import AnalysisBroken
from ..guards import ctx_of, norm, strip_targs, Engine
from ..must import Must
from ..paths import switches, enum_values, loop_conditions
from .c15 import handlers, lambda_arg, must_each, param0
from .c30 import bare, case_map, case_nodes, real_values, switch_enum, deep, region

IR = "tiro::ir::"
# kinds of values: may the evaluation raise an error, call code or write memory
MUST_KEEP = {"write": "writes memory", "call": "calls code", "method_call": "calls code", "binary_op": "may raise an error (operand types, overflow, zero divisor)",
             "unary_op": "may raise an error (operand type)", "make_iterator": "may raise an error (not iterable)", "error": "marks invalid code"}
FREE = {"alias", "publish_assign", "phi", "observe_assign", "constant", "outer_environment", "get_aggregate_member", "make_environment", "make_closure",
        "record", "container", "format", "nop"}
LV_KEEP = {"Field", "TupleField", "Index"}
LV_FREE = {"Param", "Closure", "Module"}


def returns_of(fn, blocks=None):
    """return nodes located in the given blocks (all of them if None)"""
    from ..paths import position
    out = []
    for n in fn.walk():
        if n.k == "return":
            p = position(fn, n)
            if p is not None and (blocks is None or p[0] in blocks):
                out.append(n)
    return out


def truth(n):
    v = n.child(0)
    while v is not None and v.k == "cast":
        v = v.child(0)
    if v is None:
        return None
    if v.value is not None:
        return bool(v.value)
    return v


def run(prog, rep):
    for r, t in (("effect-table", "kinds with an observable effect are never removable"),
                 ("mark-roots", "instructions with effects and terminator operands are marked"),
                 ("mark-operands", "operands of marked instructions are marked"),
                 ("sweep", "only unmarked instructions are removed"),
                 ("removal-sites", "no other code removes instructions")):
        rep.rule(r, t)
    pred = [f for f in prog.fns.values() if f.name == "has_side_effects" and f.relfile.startswith("src/compiler/ir_passes/")]
    val = [f for f in pred if f.params and bare(f.params[0].type) == IR + "Value"]
    lv = [f for f in pred if f.params and bare(f.params[0].type) == IR + "LValue"]
    elim = [f for f in prog.fns.values() if f.q == IR + "eliminate_dead_code"]
    if not val or not lv or not elim:
        raise AnalysisBroken("side effect predicates not found")
    val, lv, elim = val[0], lv[0], elim[0]
    # lvalues
    t = IR + "LValueType"
    res = table_of(prog, lv, t)
    for v, ns in real_values(prog, t).items():
        n = ns[0]
        got = res.get(v)
        if n in LV_FREE:
            rep.ok("effect-table", "LValue %s" % n)
        else:
            rep.check(got == {True}, "effect-table", lv.loc, "LValue %s" % n, "an access may raise an error but is removable (%s)" % sorted(map(str, got or ())))
    # values
    hs = handlers(prog, "has_side_effects", IR)
    hs = {k: f for k, f in hs.items() if "dead_code" in f.relfile}
    if hs:
        for v, ns in real_values(prog, IR + "ValueType").items():
            name = re.sub(r"(?<!^)([A-Z])", r"_\1", ns[0]).lower()
            f = hs.get("visit_" + name)
            if f is None:
                raise AnalysisBroken("no handler for %s" % ns[0])
            judge(prog, rep, name, f, returns_of(f), lv)
    else:
        # written as a switch
        cmsw = [sw for sw in switches(val) if switch_enum(prog, sw) == IR + "ValueType"]
        if not cmsw:
            raise AnalysisBroken("side effect predicate for values has an unknown form")
        sw = cmsw[0]
        cm = case_map(prog, sw, IR + "ValueType")
        for v, ns in real_values(prog, IR + "ValueType").items():
            name = re.sub(r"(?<!^)([A-Z])", r"_\1", ns[0]).lower()
            b = cm.get(v, sw.default)
            if b is None:
                continue
            judge(prog, rep, name, val, returns_of(val, region(val, b, {sw.blk.id})), lv)
    rep.require("effect-table", 24, "kinds")

    # marking
    M = Must(prog, keep=lambda e: not str(e[0]).startswith(("ctor:", "__builtin", "std::")))
    eng = Engine(prog)
    used = [d for d in elim.decls if d.kind == "var" and "EntityStorage<bool" in d.type or d.kind == "var" and "vector<bool" in d.type]
    if not used:
        raise AnalysisBroken("set of used instructions not found")
    up = ctx_of(elim).var_id(used[0].id)
    group = [elim] + [l for _, l in elim.lambdas()]
    # the marking function sets used[x] and queues x
    mark = None
    for f in group[1:] + [t for c in elim.calls() for t in prog.targets(c) if t.relfile == elim.relfile]:
        ass = [n for n in f.walk() if n.k in ("bin", "call") and n.op == "=" and (ctx_of(f).path(n.child(0) if n.k == "bin" else n.obj) or "").find("[") > 0]
        tr = [n for n in ass if (n.child(1) if n.k == "bin" else n.args[0]) is not None and (n.child(1) if n.k == "bin" else n.args[0]).value == 1]
        if tr and f.params:
            mark = f
            pi = ctx_of(f).var_id(f.params[-1].id)
            st_at = norm(ctx_of(f).path(tr[0].child(0) if tr[0].k == "bin" else tr[0].obj))
            rep.check(pi in st_at, "mark-operands", f.loc, "mark: index", "marks another instruction than the one that was passed")
            push = [c for c in f.calls() if c.name in ("push_back", "emplace_back", "push", "emplace") and c.args and pi in (norm(ctx_of(f).path(c.args[0])) or "")]
            rep.check(bool(push), "mark-operands", f.loc, "mark: queue", "a newly marked instruction is not queued, its operands stay unmarked")
            for c in push:
                bad = [x for x in (eng.guards(f).at(c) or ()) if not (up.split("@")[0] in str(x) or st_at in norm(str(x)) or "[" in str(x))]
                rep.check(not bad, "mark-operands", c.loc, "mark: condition", "only queued when %s" % bad)
            break
    if mark is None:
        raise AnalysisBroken("marking function not found")
    roots = [c for c in elim.calls() if mark in prog.targets(c) or c.name == mark.name and mark.name]
    roots = [c for c in elim.calls() if mark.usr in [t.usr for t in prog.targets(c)]]
    ok = False
    for c in roots:
        a = norm(ctx_of(elim).path(c.args[-1])) or "?"
        bad = [e for e in loop_conditions(eng, elim, c) if not any(x[0] == "t" and x[1].startswith(IR) and "has_side_effects" in x[1] and a in norm(x[1]) for x in e)]
        if not bad:
            ok = True
    rep.check(ok, "mark-roots", elim.loc, "roots: effects", "instructions with side effects are not marked (or under additional conditions)")
    # tracing calls
    tr = [(f, c) for f in group for c in f.calls() if c.name in ("visit_insts", "visit_inst_operands")]
    tracers = {f.usr: f for f, c in tr}
    if not tr:
        raise AnalysisBroken("operand tracing not found")
    for f, c in tr:
        cb = c.args[-1]
        txt = " ".join(filter(None, [norm(ctx_of(f).path(x)) or "" for x in cb.walk()])) if cb is not None else ""
        usesmark = any(x.k == "lambda" and (x.d["u"] == mark.usr) for x in cb.walk()) or any(
            x.k == "ref" and any(i is not None and any(y.k == "lambda" and y.d["u"] == mark.usr for y in i.walk()) for i in [lam_init(prog, f, x)]) for x in cb.walk())
        rep.check(usesmark, "mark-operands", c.loc, "trace: callback", "operands are not passed to the marking function")
    seen_t = seen_i = False
    for f in group:
        for c in f.calls():
            tg = [t.usr for t in prog.targets(c)]
            direct = c.name in ("visit_insts", "visit_inst_operands") and f is elim
            if direct or any(u in tracers and u != elim.usr for u in tg):
                args = " ".join(filter(None, (norm(ctx_of(f).path(a)) for a in c.args if a is not None)))
                if "terminator" in args:
                    seen_t = True
                    must_each(prog, rep, M, f, c.name, "mark-roots", "every terminator", only=None) if c.name not in ("operator()",) else once_per_iteration(prog, rep, f, c, "mark-roots", "every terminator")
                elif re.search(r"back\(|top\(|front\(|\[", args):
                    seen_i = True
                    once_per_iteration(prog, rep, f, c, "mark-operands", "every queued instruction")
    rep.check(seen_t, "mark-roots", elim.loc, "roots: terminators", "operands of terminators are not marked")
    rep.check(seen_i, "mark-operands", elim.loc, "trace: instructions", "operands of marked instructions are not traced")
    # sweep
    rm = [(f, c) for f in group for c in f.calls() if c.name == "remove_insts"]
    if not rm:
        raise AnalysisBroken("removal of instructions not found")
    for f, c in rm:
        l = lambda_arg(prog, f, c)
        if l is None:
            raise AnalysisBroken("predicate of remove_insts not found")
        i = ctx_of(l).var_id(l.params[0].id)
        for n in returns_of(l):
            fs = {(x[0], norm(x[1])) for x in eng.guards(l).atoms(n.child(0), True) if x[0] in ("t", "f")} | {
                (x[0], norm(x[1])) for x in (eng.guards(l).at(n) or ()) if x[0] in ("t", "f")}
            v = truth(n)
            good = ("f", "%s[%s]" % (up, i)) in fs
            rep.check(good or v is False, "sweep", c.loc, "remove_insts", "removes instructions although they are marked as used: %s" % sorted(fs))
    rep.require("sweep", 1, "removals")
    # removal sites
    n = 0
    for f in prog.in_dir("src/compiler/"):
        for c in f.calls():
            if c.d.get("cls") == IR + "Block" and c.name in ("remove_insts", "remove_inst", "clear_insts", "remove_phi", "erase_inst") and not (f.cls == IR + "Block"):
                n += 1
                allowed = f.usr in {g.usr for g in group} or c.name == "remove_phi" and f.relfile.startswith("src/compiler/ir_gen/")
                rep.check(allowed, "removal-sites", c.loc, "%s in %s" % (c.name, f.q), "instructions are removed outside of dead code elimination")
    rep.require("removal-sites", 1, "removals of instructions")
    # remove_insts keeps what the predicate rejects
    for f in prog.fns.values():
        if f.cls == IR + "Block" and f.name == "remove_insts":
            calls = [c for c in f.calls() if c.name in ("remove_if", "erase", "erase_if")]
            rep.check(bool(calls), "removal-sites", f.loc, "Block::remove_insts", "unknown form of removal")
            break
    # a constant operation is only replaced by its result when the evaluation succeeded
    check_folding(prog, rep, eng)


def lam_init(prog, f, ref):
    """initialiser of a (captured) variable that holds a lambda"""
    if ref.decl < 0:
        return None
    d = f.decls[ref.decl]
    i = ctx_of(f).init_of(ref.decl)
    if i is not None:
        return i
    of = prog.fns.get(d.owner) if d.owner else None
    hops = 0
    while of is not None and hops < 4:
        hops += 1
        for j, od in enumerate(of.decls):
            if od.key == d.key and not od.owner:
                return ctx_of(of).init_of(j)
        of = of.outer
    return None


def once_per_iteration(prog, rep, f, c, rule, what):
    from ..paths import loop_bodies, position
    p = position(f, c)
    best = None
    for h, body, backs in loop_bodies(f):
        if p[0] in body and (best is None or len(body) < len(best[1])):
            best = (h, body, backs)
    if best is None:
        rep.bad(rule, c.loc, what, "is not part of a loop")
        return
    h, body, backs = best
    bad = False
    seen, st = set(), [h]
    while st:
        x = st.pop()
        if x in seen or x == p[0]:
            continue
        seen.add(x)
        if f.cfg.blocks[x].noreturn:
            continue
        for s in f.cfg.blocks[x].succ:
            if s == h:
                bad = True
            elif s in body:
                st.append(s)
    # the loop is only left through its header
    for b in body:
        if b != h:
            for s in f.cfg.blocks[b].succ:
                if s >= 0 and s not in body and not f.cfg.blocks[s].noreturn and not any(b == x for x, _ in backs):
                    bad = True
    rep.check(not bad, rule, c.loc, what, "is not handled in every iteration")


def table_of(prog, fn, t):
    """enumerator value -> set of returned truth values"""
    out = {}
    sws = [sw for sw in switches(fn) if switch_enum(prog, sw) == t]
    if not sws:
        # comparisons: evaluate symbolically through the facts at the returns
        eng = Engine(prog)
        ev = dict(enum_values(prog, t))
        for v in set(ev.values()):
            names = {str(v)} | {t + "::" + n for n, x in ev.items() if x == v}
            r = set()
            for n, st in eng.guards(fn).returns():
                possible = True
                for x in st:
                    if x[0] == "cmp" and "type()" in str(x):
                        eq = any(y in names for y in x[2:])
                        if x[1] == "==" and not eq or x[1] == "!=" and eq:
                            possible = False
                if possible:
                    tv = truth(n)
                    r.add(tv if isinstance(tv, bool) else "?")
            out[v] = r
        return out
    sw = sws[0]
    cm = case_map(prog, sw, t)
    for v in real_values(prog, t):
        b = cm.get(v, sw.default)
        if b is None:
            b = sw.falls_out
        if b is None:
            continue
        out[v] = {x if isinstance(x, bool) else "?" for x in map(truth, returns_of(fn, region(fn, b, {sw.blk.id})))}
    return out


def judge(prog, rep, name, f, rets, lvfn):
    vals = [truth(n) for n in rets]
    if name == "read":
        p = param0(f)
        ok = bool(vals) and all(v is True or not isinstance(v, bool) and v.k == "call" and (lvfn in prog.targets(v)) and "target" in (ctx_of(f).path(v.args[0]) or "") for v in vals)
        rep.check(ok, "effect-table", f.loc, "Value read", "the effect of a read does not follow from its lvalue")
    elif name == "aggregate":
        rep.check(bool(vals) and all(v is True for v in vals), "effect-table", f.loc, "Value aggregate", "method lookup or iteration may raise an error but is removable")
    elif name in FREE:
        rep.ok("effect-table", "Value %s" % name)
    else:
        rep.check(bool(vals) and all(v is True for v in vals), "effect-table", f.loc, "Value %s" % name, "%s, but is removable" % MUST_KEEP.get(name, "unknown kind"))


def check_folding(prog, rep, eng):
    """results of constant evaluation are used only after the result was found to be present"""
    n = 0
    for f in prog.in_dir("src/compiler/ir_gen/"):
        for c in f.calls():
            if c.name in ("eval_binary_operation", "eval_unary_operation", "eval_format"):
                n += 1
                # dereferences of the result
                from ..paths import refs_to, origin
                for r in refs_to(f, c):
                    p = r.parent
                    while p is not None and p.k == "cast":
                        p = p.parent
                    if p is not None and p.k == "call" and p.d.get("ck") == "op" and p.op in ("*", "->") and p.obj is not None or p is not None and p.k == "call" and p.name == "value" and p.obj is r:
                        st = eng.guards(f).at(p) or ()
                        pp = norm(ctx_of(f).path(r))
                        ok = any(x[0] == "t" and norm(x[1]).startswith(pp) for x in st)
                        rep.check(ok, "effect-table", p.loc, "%s: folded result of %s" % (f.name, c.name), "the result of the evaluation is used without a test")
    rep.note("%d evaluations of constant operations" % n)
