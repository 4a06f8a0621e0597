"""C15: must-event dataflow over the operand visitors, the code generator's visitors, liveness and register allocation. Rule `operand-visited`:
every handler of the operand visitor passes every value field of its alternative on to the callback, on every path. Rule `targets-visited`: the
same for the block targets of terminators. Rule `codegen`: every handler of the code generator emits the instruction that belongs to its kind (or
operator) with each operand at its position. Rule `liveness`: definitions, phi operands, normal operands and terminator operands all enter the
computation and are propagated to every predecessor. Rule `registers`: a register is only reused after the last use, and only where the
instruction is emitted as a single instruction. Rule `lowering`: operators of the syntax tree map to the operator of the same name."""
import re
from ..facts import AnalysisBroken
from ..guards import ctx_of, norm, strip_targs, Engine, Facts
from ..must import Must, May, counted
from ..paths import switches, enum_values
from .c30 import bare, case_map, case_nodes, real_values, switch_enum, unions, deep, nrm

OPERAND = {"tiro::ir::InstId", "tiro::ir::LocalListId", "tiro::ir::LValue", "tiro::ir::RecordId"}
IR = "tiro::ir::"


def handlers(prog, fnname, cls, partype=None):
    """visitor handlers that are local to function fnname: name -> Fn"""
    out = {}
    for f in prog.fns.values():
        m = re.search(r"::Visitor::(visit_\w+)$", f.q)
        if m and f.q.startswith(cls):
            tail = f.full if hasattr(f, "full") else f.q
            if re.search(r"\b%s\b(\(|::)" % re.escape(fnname), f.q) and (partype is None or ("(const %s &)" % partype) in f.q):
                out[m.group(1)] = f
    return out


def fields_of(prog, t):
    r = prog.records.get(t)
    return [] if r is None else [(f["n"], bare(f["t"])) for f in r.fields]


def param0(f):
    return ctx_of(f).var_id(f.params[0].id) if f.params else None


def run(prog, rep):
    for r, t in (("operand-visited", "the operand visitor reports every value field of every alternative"),
                 ("targets-visited", "visit_targets reports every block target"),
                 ("codegen", "each kind emits its instruction with its operands in place"),
                 ("liveness", "definitions and uses enter liveness analysis completely"),
                 ("registers", "registers are reused only after the last use"),
                 ("lowering", "operators map to their namesake")):
        rep.rule(r, t)
    M = Must(prog, keep=lambda e: not str(e[0]).startswith(("std::", "ctor:", "__builtin")), opaque=lambda f: f.name in ("visit", "visit_impl") and f.relfile.startswith("src/compiler/ir/") or (f.cls or "").endswith("tiro::BytecodeWriter"))
    check_visitors(prog, rep, M)
    check_targets(prog, rep, M)
    check_codegen(prog, rep, M)
    check_liveness(prog, rep, M)
    check_registers(prog, rep, M)
    check_lowering(prog, rep)


def mentions(path, root, field):
    return path is not None and re.search(re.escape(root) + r"\." + re.escape(field) + r"(_|\(\)|\b)", path) is not None


def check_visitors(prog, rep, M):
    LV = IR + "(anonymous namespace)::LocalVisitor"
    SINKS = ("invoke", "visit_list", "accept")
    n = 0
    for T in ("Terminator", "LValue", "Aggregate", "Value"):
        hs = handlers(prog, "accept", LV + "::", IR + T)
        if len(hs) < 2:
            raise AnalysisBroken("operand visitor for %s not found" % T)
        for name, f in sorted(hs.items()):
            pt = bare(f.params[0].type)
            root = param0(f)
            rec = prog.records.get(pt)
            if rec is None:
                raise AnalysisBroken("record %s not found" % pt)
            ev = M.summary(f)
            need = [(fn_, ft) for fn_, ft in fields_of(prog, pt) if ft in OPERAND] if name != "visit_phi" else []
            for fname, ft in need:
                ok = any(e[0] in SINKS and any(mentions(a, root, fname) for a in e[2:]) for e in ev)
                rep.check(ok, "operand-visited", f.loc, "%s::%s: %s" % (T, name, fname), "value operand `%s` of %s is not reported on every path" % (fname, pt))
                n += 1
            if name in ("visit_aggregate", "visit_phi") and T == "Value":
                ok = any(e[0] == "accept" and root in e[2:] or e[0] == "visit_list" and any(a and root in a for a in e[2:]) for e in ev)
                rep.check(ok, "operand-visited", f.loc, "%s::%s" % (T, name), "the nested %s is not visited" % pt)
                n += 1
    if n < 20:
        raise AnalysisBroken("only %d operand obligations found" % n)
    # collections and forwarding
    fs = {bare(f.params[0].type).split("::")[-1]: f for f in prog.fns.values() if f.q == LV + "::accept" and f.params}
    for want in ("Block", "Phi", "LocalList", "Record", "Inst", "Terminator", "LValue", "Aggregate", "Value"):
        if want not in fs:
            raise AnalysisBroken("LocalVisitor::accept(%s) not found" % want)

    def has(f, what, pred, msg):
        rep.check(any(pred(e) for e in M.summary(f)), "operand-visited", f.loc, "accept(%s): %s" % (bare(f.params[0].type).split("::")[-1], what), msg)
    has(fs["Block"], "instructions", lambda e: e[0] == "accept" and any(a and "insts" in a and "[each]" in a for a in e[2:]), "not every instruction of the block is visited")
    has(fs["Block"], "terminator", lambda e: e[0] == "accept" and any(a and "terminator" in a for a in e[2:]), "the terminator is not visited")
    has(fs["Phi"], "operands", lambda e: e[0] == "visit_list" and any(a and "operands" in a for a in e[2:]), "the operands of the phi function are not visited")
    has(fs["LocalList"], "elements", lambda e: e[0] in ("invoke", "operator()") and any(a and "[each]" in a for a in e[2:]), "not every element of the list is visited")
    has(fs["Record"], "elements", lambda e: e[0] in ("invoke", "operator()") and any(a and "[each]" in a and ("get<1" in a or "second" in a) for a in e[2:]), "not every value of the record is visited")
    has(fs["Inst"], "value", lambda e: e[0] == "accept" and any(a and "value" in a for a in e[2:]), "the value of the instruction is not visited")
    for T in ("Terminator", "LValue", "Aggregate", "Value"):
        has(fs[T], "dispatch", lambda e: e[0] == "visit" and e[1] and e[1].startswith(param0(fs[T])), "the value is not dispatched to its handler")
    inv = prog.find(LV + "::invoke")
    p = param0(inv)
    rep.check(any(e[0] == "operator()" and e[1] and "cb_" in e[1] and p in e[2:] for e in M.summary(inv)), "operand-visited", inv.loc, "invoke: callback",
              "the callback is not invoked for every operand")
    vl = prog.find(LV + "::visit_list")
    eng = Engine(prog)
    vp = param0(vl)
    okl = None
    for f2, c in ((vl, c) for c in vl.calls()):
        if c.name == "accept":
            g = eng.guards(vl)
            st = g.at(c) or ()
            okl = all(x[0] == "t" and norm(x[1]).startswith(vp) or x[0] == "f" and norm(x[1]).startswith("!") or x[0] == "cmp" for x in st) and any(
                vp in norm(a) for a in [ctx_of(vl).path(c.args[0]) or ""])
    rep.check(bool(okl), "operand-visited", vl.loc, "visit_list: list", "a valid list is not visited (or only under additional conditions)")
    # free functions
    for f in prog.fns.values():
        if f.q == IR + "visit_insts" and f.relfile.startswith("src/"):
            t = f.params[1].type
            ok = any(e[0] == "accept" and ctx_of(f).var_id(f.params[1].id) in e[2:] for e in M.summary(f))
            rep.check(ok, "operand-visited", f.loc, "visit_insts(%s)" % bare(t), "the item is not visited")
        if f.q == IR + "visit_inst_operands" and f.relfile.startswith("src/"):
            i = ctx_of(f).var_id(f.params[1].id)
            ok = any(e[0] == "accept" and any(a and i in a and "value" in a for a in e[2:]) for e in M.summary(f))
            rep.check(ok, "operand-visited", f.loc, "visit_inst_operands", "the operands of the instruction are not visited")
    rep.require("operand-visited", 40, "operands")


def check_targets(prog, rep, M):
    n = 0
    for f in prog.fns.values():
        m = re.search(r"tiro::ir::visit_targets\(.*::(visit_\w+)$", f.q) or (re.search(r"visit_targets.*::(visit_\w+)$", f.q))
        if not m or not f.params:
            continue
        pt = bare(f.params[0].type)
        root = param0(f)
        ev = M.summary(f)
        for fname, ft in fields_of(prog, pt):
            if ft == IR + "BlockId":
                ok = any(e[0] in ("operator()", "()") and any(a == root + "." + fname for a in e[2:]) for e in ev)
            elif "BlockId" in ft:
                ok = any(e[0] in ("operator()", "()") and any(a and a.startswith(root + "." + fname) and "[each]" in a for a in e[2:]) for e in ev)
            else:
                continue
            n += 1
            rep.check(ok, "targets-visited", f.loc, "%s: %s" % (m.group(1), fname), "block target `%s` of %s is not reported on every path" % (fname, pt))
    rep.require("targets-visited", 8, "terminator targets")


# handler -> list of required events (name, argument tokens); p.x: field x of the handled value, v: the visitor's target/source register, "" anything
VALUE = {
    "visit_read": [("compile_lvalue_read", "p.target", "v")],
    "visit_write": [("compile_lvalue_write", "p.value", "p.target")],
    "visit_alias": [("emit_copy", "p.target", "v")],
    "visit_publish_assign": [("emit_copy", "p.value", "v")],
    "visit_observe_assign": [("emit_copy", "p.symbol", "v")],
    "visit_constant": [("compile_constant", "p", "v")],
    "visit_outer_environment": [("load_closure", "v")],
    "visit_call": [("call", "p.func", "p.args"), ("pop_to", "v"), ("push", "p.args[each]")],
    "visit_method_call": [("call_method", "p.method", "p.args"), ("pop_to", "v"), ("push", "p.method"), ("push", "p.args[each]")],
    "visit_make_environment": [("env", "p.parent", "p.size", "v")],
    "visit_make_closure": [("closure", "p.func", "p.env", "v")],
    "visit_make_iterator": [("iterator", "p.container", "v")],
    "visit_format": [("formatter", "v"), ("append_format", "p.args[each]", "v"), ("format_result", "v", "v")],
    "visit_container": [("push", "p.args[each]")],
    "visit_record": [("record", "", "v")],
}
READ = {
    "visit_param": [("load_param", "p.target", "v")],
    "visit_closure": [("load_env", "p.env", "p.levels", "p.index", "v")],
    "visit_module": [("load_module", "p.member", "v")],
    "visit_field": [("load_member", "p.object", "p.name", "v")],
    "visit_tuple_field": [("load_tuple_member", "p.object", "p.index", "v")],
    "visit_index": [("load_index", "p.object", "p.index", "v")],
}
WRITE = {
    "visit_param": [("store_param", "v", "p.target")],
    "visit_closure": [("store_env", "v", "p.env", "p.levels", "p.index")],
    "visit_module": [("store_module", "v", "p.member")],
    "visit_field": [("store_member", "v", "p.object", "p.name")],
    "visit_tuple_field": [("store_tuple_member", "v", "p.object", "p.index")],
    "visit_index": [("store_index", "v", "p.object", "p.index")],
}
CONST = {
    "visit_integer": [("load_int", "p.value", "v")],
    "visit_float": [("load_float", "p.value", "v")],
    "visit_string": [("load_module", "p.value", "v")],
    "visit_symbol": [("load_module", "p.value", "v")],
    "visit_null": [("load_null", "v")],
    "visit_true": [("load_true", "v")],
    "visit_false": [("load_false", "v")],
}
TERM = {
    "visit_return": [("ret", "p.value")],
    "visit_rethrow": [("rethrow",)],
    "visit_assert_fail": [("assert_fail", "p.expr", "p.message")],
    "visit_jump": [("visit", "p.target")],
    "visit_branch": [("visit", "p.target"), ("visit", "p.fallthrough")],
    "visit_entry": [("visit", "p.body")],
}
BINOPS = {"Plus": "add", "Minus": "sub", "Multiply": "mul", "Divide": "div", "Modulus": "mod", "Power": "pow", "LeftShift": "lsh", "RightShift": "rsh",
          "BitwiseAnd": "band", "BitwiseOr": "bor", "BitwiseXor": "bxor", "Less": "lt", "LessEquals": "lte", "Greater": "gt", "GreaterEquals": "gte",
          "Equals": "eq", "NotEquals": "neq"}
UNOPS = {"Plus": "uadd", "Minus": "uneg", "BitwiseNot": "bnot", "LogicalNot": "lnot"}
CONTAINERS = {"Array": "array", "Tuple": "tuple", "Set": "set", "Map": "map"}
BRANCHES = {"IfTrue": "jmp_true", "IfFalse": "jmp_false", "IfNull": "jmp_null", "IfNotNull": "jmp_not_null"}
AGGREGATES = {"Method": ("load_method", "instance", "function", "MethodInstance", "MethodFunction"),
              "IteratorNext": ("iterator_next", "iterator", "IteratorNextValid", "IteratorNextValue")}


def tok_ok(tok, a, root, fields):
    if tok == "":
        return True
    if a is None or a == "?":
        return tok == ""
    used = {f for f, _ in fields if mentions(a, root, f)}
    if tok == "p":
        return root in a
    if tok == "v":
        return not used and root not in a and re.search(r"\bthis\.(?!self\b)\w+", a) is not None
    f = tok[2:]
    each = f.endswith("[each]")
    f = f[:-6] if each else f
    return used == {f} and (not each or "[each]" in a)


def find_event(ev, spec, root, fields):
    for e in ev:
        if e[0] == spec[0] and len(e) - 2 >= len(spec) - 1 and all(tok_ok(t, a, root, fields) for t, a in zip(spec[1:], e[2:])):
            return e
    return None


def check_codegen(prog, rep, M):
    FC = "tiro::(anonymous namespace)::FunctionCompiler::"
    writer_ops = {f.name for f in prog.fns.values() if f.cls and f.cls.endswith("tiro::BytecodeWriter")}
    if len(writer_ops) < 40:
        raise AnalysisBroken("BytecodeWriter operations not found")
    for fname, table in (("compile_value", VALUE), ("compile_lvalue_read", READ), ("compile_lvalue_write", WRITE), ("compile_constant", CONST),
                         ("compile_terminator", TERM)):
        hs = handlers(prog, fname, FC)
        if not hs:
            raise AnalysisBroken("code generation handlers of %s not found" % fname)
        for name, specs in sorted(table.items()):
            f = hs.get(name)
            if f is None:
                raise AnalysisBroken("handler %s of %s not found" % (name, fname))
            root = param0(f)
            fields = fields_of(prog, bare(f.params[0].type))
            ev = M.summary(f)
            for spec in specs:
                e = find_event(ev, spec, root, fields)
                rep.check(e is not None, "codegen", f.loc, "%s::%s: %s" % (fname, name, spec[0]),
                          "no %s(%s) is emitted on every path; found %s" % (spec[0], ", ".join(spec[1:]), sorted({x for x in ev if x[0] == spec[0]}, key=str)[:3]))
            # no other instruction for these kinds
            allowed = {s[0] for s in specs}
            others = {x[0] for x in ev if x[0] in writer_ops and x[1] and ("writer" in x[1])} - allowed - {"store_member", "jmp", "pop_to"}
            if name not in ("visit_branch", "visit_container"):
                rep.check(not others, "codegen", f.loc, "%s::%s: only" % (fname, name), "unexpected instruction(s) %s" % sorted(others))
        # switches over operators
        for name, f in hs.items():
            group = [f] + [l for _, l in f.lambdas()]
            for g in group:
                for sw in switches(g):
                    t = switch_enum(prog, sw)
                    if t is None:
                        continue
                    tn = t.split("::")[-1]
                    tbl = {"BinaryOpType": BINOPS, "UnaryOpType": UNOPS, "ContainerType": CONTAINERS, "BranchType": BRANCHES, "AggregateType": AGGREGATES}.get(tn)
                    if tbl is None:
                        continue
                    cm = case_map(prog, sw, t)
                    root = param0(f)
                    fields = fields_of(prog, bare(f.params[0].type))
                    for v, ns in real_values(prog, t).items():
                        if v not in cm:
                            continue
                        en = ns[0]
                        want = tbl.get(en)
                        if want is None:
                            rep.note("no expectation for %s::%s" % (t, en))
                            continue
                        evs = set()
                        for nd in case_nodes(g, sw, cm, v):
                            evs |= M.events(g, nd)
                        evs = {e for e in evs if e[0] in writer_ops and e[1] and "writer" in e[1]}
                        if isinstance(want, tuple):
                            names = (want[0],)
                        else:
                            names = (want,)
                        got = {e[0] for e in evs}
                        rep.check(got == set(names), "codegen", g.loc, "%s: %s::%s" % (name, tn, en), "emits %s instead of %s" % (sorted(got), want))
                        for e in evs:
                            if tn == "BinaryOpType":
                                spec = ("p.left", "p.right", "v")
                            elif tn == "UnaryOpType":
                                spec = ("p.operand", "v")
                            elif tn == "ContainerType":
                                spec = ("p.args", "v")
                            elif tn == "BranchType":
                                spec = ("p.value", "p.target")
                            else:
                                mem = dict(enum_values(prog, IR + "AggregateMember"))
                                ok = len(e) - 2 == len(want) - 1 and all(
                                    a is not None and re.search(r",%d\)$" % mem[w] if w in mem else r"\b%s\b" % w, a) for a, w in zip(e[2:], want[1:]))
                                rep.check(ok, "codegen", g.loc, "%s: %s::%s operands" % (name, tn, en), "%s%s" % (e[0], e[2:]))
                                continue
                            rep.check(all(tok_ok(k, a, root, fields) for k, a in zip(spec, e[2:])), "codegen", g.loc, "%s: %s::%s operands" % (name, tn, en),
                                      "operands %s where (%s) is expected" % (e[2:], ", ".join(spec)))
    # values of a record are stored unless null
    f = handlers(prog, "compile_value", FC)["visit_record"]
    ok = False
    for nd in f.calls():
        for e in M.events(f, nd):
            if e[0] == "store_member" and e[2] and "[each]" in e[2] and e[4] and "[each]" in e[4] and re.search("get<1|second", e[2]) and re.search("get<0|first", e[4]) \
                    and re.search(r"this\.(?!self\b)\w+", e[3] or ""):
                ok = True
    rep.check(ok, "codegen", f.loc, "compile_value::visit_record: store_member", "the values of the record are not stored under their names")
    # every instruction, the phi copies and the terminator of every block are compiled; jumps to visited blocks are emitted
    run_ = prog.find(FC + "run")
    ev = set()
    for nd in run_.calls():
        ev |= M.events(run_, nd)
    for nm, rx in (("compile_value", r"insts\(\)\[each\]|insts"), ("compile_terminator", "terminator"), ("compile_phi_operands", "")):
        rep.check(any(e[0] == nm and any(a and re.search(rx, a) for a in e[2:]) for e in ev), "codegen", run_.loc, "run: " + nm, "%s is not called for every block" % nm)
    eng = Engine(prog)
    for name in ("visit_jump", "visit_branch"):
        f = handlers(prog, "compile_terminator", FC)[name]
        fld = "target" if name == "visit_jump" else "fallthrough"
        root = param0(f)
        ok = False
        for c in f.calls():
            if c.name != "jmp":
                continue
            a = norm(ctx_of(f).path(c.args[0])) if c.args else None
            st = {norm(x[1]) for x in (eng.guards(f).at(c) or ()) if x[0] == "f"}
            if mentions(a or "", root, fld) and any("visit(" in x and mentions(x, root, fld) for x in st):
                ok = True
        rep.check(ok, "codegen", f.loc, "%s: jmp" % name, "no jump to the target `%s` is emitted when that block does not follow" % fld)
    rep.require("codegen", 80, "emitted instructions")


def check_liveness(prog, rep, M):
    L = "tiro::ir::Liveness::"
    f = prog.find(L + "compute")
    ex = prog.find(L + "extent_statement")
    evs = []
    for nd in f.calls():
        for e in M.events(f, nd):
            evs.append((nd, e))
    rep.check(any(e[0] == "insert_definition" and e[2] and "insts" in e[2] and "[each]" in e[2] for _, e in evs), "liveness", f.loc, "definitions",
              "insert_definition is not called for every instruction")
    must_each(prog, rep, M, f, "insert_definition", "liveness", "every definition")
    rep.check(any(e[0] == "extend_live_out" and e[2] and "operand" in e[2] and e[3] and "predecessor" in e[3] for _, e in evs), "liveness", f.loc, "phi operands",
              "phi operands are not extended to the end of their predecessor block")
    # the same index selects operand and predecessor
    for nd, e in evs:
        if e[0] == "extend_live_out":
            c = ctx_of(f)
            args = [norm(c.path(a)) for a in nd.args] if nd.name == "extend_live_out" else None
            if args and None not in args:
                ia = re.findall(r"operand\([^()]*?,\s*([\w@:]+)\)", args[0])
                ib = re.findall(r"predecessor\(([\w@:]+)\)", args[1])
                rep.check(bool(ia) and ia == ib, "liveness", nd.loc, "phi operand index", "operand %s is extended to predecessor %s" % (args[0], args[1]))
    calls = {}
    for nd in f.calls():
        if nd.name in ("visit_inst_operands", "visit_insts") and nd.d.get("ck") != "op":
            calls.setdefault(nd.name, []).append(nd)
    for nm, what in (("visit_inst_operands", "operands"), ("visit_insts", "terminator")):
        cs = calls.get(nm, [])
        ok = False
        for c in cs:
            lam = lambda_arg(prog, f, c)
            if lam is None:
                continue
            p = ctx_of(lam).var_id(lam.params[0].id)
            if any(e[0] == "extent_statement" and e[2] == p for e in M.summary(lam)):
                if nm == "visit_insts":
                    ok = "terminator" in (ctx_of(f).path(c.args[1]) or "")
                else:
                    ok = True
        rep.check(ok, "liveness", f.loc, "uses: " + what, "the uses of %s are not recorded" % what)
    # skipped instructions: only ObserveAssign
    obs = str(dict(enum_values(prog, IR + "ValueType"))["ObserveAssign"])

    def is_obs(x, op):
        return x[0] == "cmp" and x[1] == op and "type()" in str(x) and (obs in x[2:] or "ObserveAssign" in str(x))
    eng = Engine(prog)
    for c in calls.get("visit_inst_operands", []):
        st = eng.guards(f).at(c) or ()
        extra = [x for x in st if x[0] == "cmp" and x[1] in ("!=", "==") and "value().type()" in str(x) and not is_obs(x, "!=")]
        rep.check(not extra, "liveness", c.loc, "skipped kinds", "operands are only recorded when %s" % extra)
    for nm in ("visit_inst_operands", "visit_insts"):
        must_each(prog, rep, M, f, nm, "liveness", "every " + ("instruction" if nm == "visit_inst_operands" else "terminator"),
                  skip=lambda st: any(is_obs(x, "==") for x in st))
    loops = counted(f)
    for nd, e in evs:
        if e[0] == "extend_live_out" and nd.name == "extend_live_out":
            a = norm(ctx_of(f).path(nd.args[0])) or ""
            for i in re.findall(r"[\w]+@\d+:\d+", a):
                if i in loops:
                    want = r"^0$", (r"predecessor_count\(\)$|operand_count\(" if "operand(" in a.split(i)[0] and i in a.split("operand(", 1)[-1].split(")")[0] else r"phi_count\(")
                    if "inst(%s)" % i in a:
                        want = r"^0$", r"phi_count\("
                    s, b = loops[i]
                    rep.check(bool(s and b and re.search(want[0], s) and re.search(want[1], b) and not re.search(r" [-+] ", b)), "liveness", nd.loc,
                              "range: phi functions" if "phi_count" in want[1] else "range: phi operands", "the loop covers %s to %s" % loops[i])
    for c in calls.get("visit_inst_operands", []):
        a = norm(ctx_of(f).path(c.args[1])) or ""
        for i in re.findall(r"inst\(([\w]+@\d+:\d+)\)", a):
            s, b = loops.get(i, (None, None))
            ok = s is not None and (s == "0" or re.search(r"phi_count\([^()]*\)$", s)) and b is not None and re.search(r"inst_count\(\)$", b) is not None
            rep.check(bool(ok), "liveness", c.loc, "range: instructions", "the loop covers %s to %s" % (s, b))
    # propagation
    ev = set()
    for nd in ex.calls():
        ev |= M.events(ex, nd)
    ok1 = any(e[0] == "push_back" and e[1] and "work_" in e[1] and e[2] and "predecessors" in e[2] and "[each]" in e[2] for e in ev)
    ok2 = any(e[0] == "extend" and e[2] and "predecessors" in e[2] and "[each]" in e[2] for e in ev)
    ok3 = any(e[0] == "extend" and e[2] == ctx_of(ex).var_id(ex.params[1].id) and e[3] == ctx_of(ex).var_id(ex.params[2].id) for e in ev)
    ok4 = any(e[0] == "push_back" and e[1] and "live_sets_" in e[1] for e in ev)
    rep.check(ok1 and ok2, "liveness", ex.loc, "predecessors", "liveness is not propagated to every predecessor")
    rep.check(ok3, "liveness", ex.loc, "use position", "the use is not recorded at its own block and position")
    rep.check(ok4, "liveness", ex.loc, "live-in set", "live-in values are not recorded")
    must_each(prog, rep, M, ex, "extend", "liveness", "every predecessor", only=lambda e: e[2] and "[each]" in e[2])
    nrm_calls = [e for e in ev if e[0] in ("normalize",)]
    rep.check(bool(nrm_calls), "liveness", ex.loc, "aggregate members", "the use of an aggregate member does not count as use of the aggregate")


def lambda_arg(prog, f, c):
    for a in c.args:
        for x in (a.walk() if a is not None else ()):
            if x.k == "lambda":
                return prog.fns.get(x.d["u"])
            if x.k == "ref" and x.decl >= 0:
                i = ctx_of(f).init_of(x.decl)
                if i is not None:
                    for y in i.walk():
                        if y.k == "lambda":
                            return prog.fns.get(y.d["u"])
    return None


def must_each(prog, rep, M, f, callee, rule, what, only=None, skip=None):
    """in the innermost loop around a call of callee, every iteration reaches it, except where skip(facts) holds"""
    from ..paths import loop_bodies, position
    eng = Engine(prog)
    g = eng.guards(f)
    g.compute()
    hits = []
    for nd in f.calls():
        if nd.name == callee and (only is None or any(only(e) for e in M.events(f, nd) if e[0] == callee)):
            p = position(f, nd)
            if p is not None:
                hits.append((nd, p[0]))
    for nd, pb in hits:
        best = None
        for h, body, backs in loop_bodies(f):
            if pb in body and (best is None or len(body) < len(best[1])):
                best = (h, body, backs)
        if best is None:
            continue
        h, body, backs = best
        hs = {b for _, b in hits}
        seen, st, bad = set(), [h], False
        early = False
        while st:
            x = st.pop()
            if x in seen or x in hs:
                continue
            seen.add(x)
            blk = f.cfg.blocks[x]
            if blk.noreturn:
                continue
            for i, s in enumerate(blk.succ):
                if s < 0:
                    continue
                if skip is not None:
                    fs = g.at_block_edge(blk, i)
                    if fs is not None and skip(fs):
                        continue
                if s == h:
                    bad = True
                elif s in body:
                    st.append(s)
        for b in body:
            if b == h:
                continue
            for s in f.cfg.blocks[b].succ:
                if s >= 0 and s not in body and not f.cfg.blocks[s].noreturn and not any(b == bb for bb, _ in backs):
                    early = True
        rep.check(not bad and not early, rule, nd.loc, "%s: %s" % (f.name, what), "%s is not reached in every iteration of its loop" % callee)


def check_registers(prog, rep, M):
    RA = "tiro::(anonymous namespace)::RegisterAllocator::"
    f = prog.find(RA + "assign_locations")
    eng = Engine(prog)
    n = 0
    for g in [f] + [l for _, l in f.lambdas()] + [l for _, x in f.lambdas() for _, l in x.lambdas()]:
        for c in g.calls():
            if c.name != "deallocate_registers":
                continue
            n += 1
            c0 = ctx_of(g)
            v = norm(c0.path(c.args[0]))
            st = [norm(x[1]) for x in (eng.guards(g).at(c) or ()) if x[0] == "t"]
            ok = any(("last_use(" in x or "dead(" in x) and v is not None and v in x for x in st)
            for m in (re.match(r"(\w+@\d+:\d+)\.(dead|last_use)\(", x) for x in st):
                d = next((d for d in g.decls if m and c0.var_id(d.id) == m.group(1)), None)
                i = c0.init_of(d.id) if d is not None else None
                ok = ok or i is not None and any(norm(c0.path(y)) == v for y in i.walk())
            rep.check(ok, "registers", c.loc, "%s: deallocate" % f.name, "registers of %s are released without knowing that this is its last use" % v)
            loc = norm(c0.path(c.args[1]))
            rep.check(loc is None or v is None or v in loc or "@" not in loc, "registers", c.loc, "%s: released location" % f.name, "the location of another value is released: %s" % loc)
    if n < 2:
        raise AnalysisBroken("register release sites not found")
    # operands of the instruction
    ok = False
    for g in [f] + [l for _, l in f.lambdas()]:
        for c in g.calls():
            if c.name == "visit_inst_operands":
                ok = True
    rep.check(ok, "registers", f.loc, "assign_locations: operands", "operands are not enumerated by visit_inst_operands")
    # allocation for every instruction
    cb = prog.find(RA + "color_block")
    names = {e[0] for nd in cb.calls() for e in M.events(cb, nd)}
    for nm in ("occupy_live_in", "allocate_registers", "assign_locations", "visit_targets"):
        rep.check(nm in names, "registers", cb.loc, "color_block: " + nm, "%s is not called" % nm)
    for nm in ("assign_locations", "allocate_registers"):
        must_each(prog, rep, M, cb, nm, "registers", nm)
    occ = prog.find(RA + "occupy_live_in")
    rep.check(any(e[0] == "set_occupied" and e[2] and "live_in_values" in e[2] and "[each]" in e[2] for e in M.summary(occ)), "registers", occ.loc,
              "occupy_live_in", "registers of live-in values are not all marked as occupied")
    # set_occupied before the copies are sequentialized
    ph = prog.find(RA + "implement_phi_copies")
    for nd in ph.calls():
        if nd.name == "push_back" and nd.obj is not None and "copies" in (ctx_of(ph).path(nd.obj) or ""):
            before = M.at(ph, nd) or ()
            so = [e for e in before if e[0] == "set_occupied"]
            rep.check(len({e[2] for e in so}) >= 2, "registers", nd.loc, "phi copies: occupied", "source and destination are not marked as occupied before a spare register may be chosen")
            a = norm(ctx_of(ph).path(nd.args[0])) or ""
            m = re.search(r"\{(.*)\}", a)
            if m:
                x, y = m.group(1).split(",", 1) if "," in m.group(1) else (m.group(1), "")
                rep.ok("registers", "phi copy %s" % a[:60])
    # instructions that are emitted as several instructions, the first of which overwrites the target
    FC = "tiro::(anonymous namespace)::FunctionCompiler::"
    hs = handlers(prog, "compile_value", FC)
    nd_fn = prog.find(RA + "needs_distinct_register")
    kinds = {x.q.rsplit("::", 1)[-1] for x in nd_fn.walk() if x.k == "enum"}
    for name, h in sorted(hs.items()):
        if not h.params:
            continue
        root = param0(h)
        fields = fields_of(prog, bare(h.params[0].type))
        vf = [fn_ for fn_, ft in fields if ft in OPERAND]
        if not vf:
            continue
        seq = False
        for c in h.calls():
            mine = [e for e in M.events(h, c) if e[1] and "writer" in e[1]]
            if not any(a and any(mentions(a, root, x) for x in vf) for e in mine for a in e[2:]):
                continue
            for e in before_any(h, c, M):
                if e[1] and "writer" in e[1] and any(a and re.search(r"this\.(?!self\b)\w+", a) and root not in a for a in e[2:]):
                    seq = True
        kind = "".join(x.capitalize() for x in name[6:].split("_"))
        if seq:
            rep.check(kind in kinds, "registers", h.loc, "distinct target: " + kind,
                      "%s is emitted as several instructions, the first of which overwrites the target, but may share a register with its operands" % kind)
    rep.require("registers", 12, "register allocation obligations")


def before_any(fn, node, M):
    """events that may happen before node"""
    from ..paths import position
    p = position(fn, node)
    out = set()
    if p is None:
        return out
    cfg = fn.cfg

    def add(b, elems):
        for e in elems:
            if not isinstance(e, list) and fn.nodes[e] is not None:
                out.update(M.elem_events(fn, fn.nodes[e], 0))
    add(p[0], cfg.blocks[p[0]].elems[:p[1]])
    seen = set()
    st = list(cfg.blocks[p[0]].pred)
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        add(b, cfg.blocks[b].elems)
        st.extend(cfg.blocks[b].pred)
    return out


def check_lowering(prog, rep):
    n = 0
    for f in prog.in_dir("src/compiler/ir_gen/"):
        for sw in switches(f):
            t = switch_enum(prog, sw)
            if t not in ("tiro::BinaryOperator", "tiro::UnaryOperator"):
                continue
            tgt = "BinaryOpType" if "Binary" in t else "UnaryOpType"
            cm = case_map(prog, sw, t)
            for v, ns in real_values(prog, t).items():
                if v not in cm:
                    continue
                used = {x.q.rsplit("::", 1)[-1] for x in deep(case_nodes(f, sw, cm, v)) if x.k == "enum" and x.q.startswith("tiro::ir::" + tgt)}
                if not used:
                    continue
                n += 1
                name = ns[0]
                want = name[6:] if name.startswith("Assign") and name != "Assign" else name
                rep.check(used == {want}, "lowering", f.loc, "%s::%s" % (t, name), "is compiled to %s" % sorted(used))
    if n < 22:
        raise AnalysisBroken("only %d operator lowerings found" % n)
