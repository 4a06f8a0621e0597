"""C05: must-hold condition facts at the exit of the bytecode verifier's functions. Rule `operand-checked`: when the verifier's handler of an
instruction returns, every register, parameter, jump offset and member reference of the instruction (the fields of its record) has been
compared with the function's locals, parameters, instruction starts, or the visited members. Rule `operand-kind`: a member operand that the
interpreter casts without a test (derived from its casts) has been checked to be of that member type. Rule `member-reference`: every member
reference the module loader follows is checked for bounds, order and kind. Rule `function-body`: rejection conditions for locals, code size,
last instruction and handler tables exist and every instruction, member, function and export is visited. Rule `verify-first`: the loader is only
reached after the verifier returned."""
import re
from ..facts import AnalysisBroken
from ..guards import Engine, Facts, ctx_of, norm, norm_fact, strip_targs
from ..paths import (back_edge_facts, region_end_facts, every_iteration, enum_values, record, switches, ends_noreturn, origin, dominates, loop_bodies)
from .c06 import REG, PARAM, OFF, MEM, bare

V = "tiro::vm::(anonymous namespace)::"


def run(prog, rep):
    for r, t in (("operand-checked", "every operand of an instruction is in range when its verification returns"),
                 ("operand-kind", "member operands have the kind the interpreter relies on"),
                 ("count-checked", "container sizes are bounded"),
                 ("member-reference", "references between members are in range, backwards and of the expected kind"),
                 ("function-body", "rejection conditions of function bodies"),
                 ("verify-first", "the loader runs after the verifier")):
        rep.rule(r, t)
    eng = Engine(prog)
    mt = dict(enum_values(prog, "tiro::BytecodeMemberType"))
    ft = dict(enum_values(prog, "tiro::BytecodeFunctionType"))
    kinds = member_kinds(prog, rep)
    n = 0
    for f in prog.fns.values():
        if not f.q.startswith(V + "FunctionVerifier::InstructionVisitor::visit_") or not f.params:
            continue
        name = bare(f.params[0].type).rsplit("::", 1)[1]
        p = norm(ctx_of(f).var_id(f.params[0].id))
        fa = Facts(eng.guards(f).at_exit())
        n += 1
        for fld in record(prog, "tiro::BytecodeInstr::" + name).fields:
            path = "%s.%s" % (p, fld["n"])
            t = fld["t"]
            if t == REG:
                good = fa.true(path) and lt_suffix(fa, path + ".value()", ".locals()")
                msg = "register is not compared with the number of locals"
            elif t == PARAM:
                good = fa.true(path) and lt_suffix(fa, path + ".value()", ".params()")
                msg = "parameter index is not compared with the number of parameters"
            elif t == OFF:
                good = any(x[0] == "t" and x[1].endswith("is_instruction_start(%s)" % path) for x in fa.f)
                msg = "jump target is not checked to be the start of an instruction"
            elif t == MEM:
                good = fa.true(path) and lt_suffix(fa, path + ".value()", "seen_member_ids_")
                msg = "member reference is not checked"
                k = kinds.get((name, fld["n"]))
                if k:
                    want = mt[k]
                    rep.check(has_kind(fa, path, want, fa), "operand-kind", f.loc, "%s.%s" % (name, fld["n"]),
                              "the interpreter relies on a member of type %s but the verifier does not reject others" % k)
                    if name == "Closure":
                        good2 = any(x[0] == "cmp" and x[1] == "==" and path in x[2] + x[3] and ".id" in x[2] + x[3] and str(ft["Closure"]) in x[2:] for x in fa.f)
                        rep.check(good2, "operand-kind", f.loc, "Closure function type", "the referenced function is not required to be a closure function")
            else:
                if name in ("Array", "Tuple", "Set", "Map") and fld["n"] == "count":
                    ub = fa.upper(path)
                    rep.check(ub is not None and ub <= 1 << 20, "count-checked", f.loc, name + ".count", "the number of elements is not bounded")
                    if name == "Map":
                        even = any(x[0] == "cmp" and x[1] == "==" and "%" in x[2] + x[3] and path in x[2] + x[3] for x in fa.f) or \
                            any(x[0] == "f" and "%" in x[1] and path in x[1] for x in fa.f)
                        rep.check(even, "count-checked", f.loc, "Map.count even", "an odd number of keys and values is accepted")
                continue
            rep.check(good, "operand-checked", f.loc, "%s.%s" % (name, fld["n"]), msg)
        if name == "LoadClosure":
            g = any(x[0] == "cmp" and x[1] == "==" and "function_.type()" in x[2] + x[3] and str(ft["Closure"]) in x[2:] for x in fa.f)
            rep.check(g, "operand-kind", f.loc, "LoadClosure", "is accepted in functions that have no closure")
    if n < 60:
        raise AnalysisBroken("instruction verifier not found")
    rep.require("operand-checked", 120, "operands")

    # primitive checks are not weakened
    for f in prog.by_q[V + "ModuleVerifier::check_reference"]:
        fa = Facts(eng.guards(f).at_exit())
        p = norm(ctx_of(f).var_id(f.params[0].id))
        rep.check(fa.true(p), "member-reference", f.loc, "check_reference: valid", "invalid ids are accepted")
        rep.check(lt_suffix(fa, p + ".value()", "seen_member_ids_") , "member-reference", f.loc, "check_reference: order", "references to members that were not verified yet are accepted")
        rep.check(any(x[0] == "t" and "in_bounds(%s)" % p in x[1] for x in fa.f), "member-reference", f.loc, "check_reference: bounds", "ids out of bounds are accepted")

    # member kinds: what the loader relies on
    want = {"visit_symbol": ("name", "String"), "visit_import": ("module_name", "String")}
    for m, (fld, k) in want.items():
        f = prog.find(V + "ModuleVerifier::" + m)
        fa = Facts(eng.guards(f).at_exit())
        p = "%s.%s" % (norm(ctx_of(f).var_id(f.params[0].id)), fld)
        rep.check(lt_suffix(fa, p + ".value()", "seen_member_ids_"), "member-reference", f.loc, "%s: %s" % (m, fld), "reference is not checked")
        rep.check(has_kind(fa, p, mt[k], fa), "member-reference", f.loc, "%s: %s kind" % (m, fld), "kind of the referenced member is not checked to be %s" % k)
    f = prog.find(V + "ModuleVerifier::visit_string")
    fa = Facts(eng.guards(f).at_exit())
    rep.check(fa.true(norm(ctx_of(f).var_id(f.params[0].id)) + ".value"), "member-reference", f.loc, "visit_string: value", "invalid strings are accepted")
    for m in ("visit_function", "visit_record_schema"):
        f = prog.find(V + "ModuleVerifier::" + m)
        fa = Facts(eng.guards(f).at_exit())
        rep.check(fa.true(norm(ctx_of(f).var_id(f.params[0].id)) + ".id"), "member-reference", f.loc, m + ": id", "invalid ids are accepted")
    f = prog.find(V + "ModuleVerifier::visit_function")

    def region(construct, fn, cond, good, msg, rule="member-reference"):
        ends = region_end_facts(eng, fn, cond)
        if not ends:
            rep.bad(rule, fn.loc, construct, msg)
            return
        rep.check(all(any(good(x) for x in flat(fa)) for fa in ends), rule, fn.loc, construct, msg)

    def eq(x, v, *parts):
        return x[0] == "cmp" and x[1] == "==" and str(v) in x[2:] and all(p in x[2] + x[3] for p in parts)
    region("visit_function: name kind", f, lambda x: x[0] == "t" and x[1].endswith(".name()"), lambda x: eq(x, mt["String"], ".type()", "name()"),
           "function names that are no strings are accepted")
    f = prog.find(V + "ModuleVerifier::visit_record_schema")
    crc = [c for c in f.calls() if c.name == "check_reference"]
    bes = [fa for c in crc for fa in back_edge_facts(eng, f, c)]
    rep.check(bool(bes) and all(any(eq(x, mt["Symbol"], ".type()") for x in fa.f) for fa in bes), "member-reference", f.loc, "visit_record_schema: key kind",
              "record keys that are no symbols are accepted")
    loops = list(every_iteration(f, lambda fn, n: n.k == "call" and n.name == "check_reference"))
    rep.check(bool(loops) and all(ok for _, ok in loops), "member-reference", f.loc, "visit_record_schema: every key", "some keys are not checked")

    # ModuleVerifier::verify
    f = prog.find(V + "ModuleVerifier::verify")
    fx = Facts(eng.guards(f).at_exit())
    rep.check(any(x[0] == "t" and x[1].endswith("module_.name()") for x in fx.f), "function-body", f.loc, "module name", "modules without name are accepted")
    isinit = lambda x: x[0] == "t" and x[1].endswith(".init()")
    region("init kind", f, isinit, lambda x: eq(x, mt["Function"], ".type()", "init"), "an initializer that is no function is accepted")
    region("init function type", f, isinit, lambda x: eq(x, ft["Normal"], "as_function().id", "init"), "an initializer that is no normal function is accepted")
    region("init reference", f, isinit, lambda x: x[0] == "cmp" and x[1] == "<" and x[3].endswith("seen_member_ids_"), "the reference to the initializer is not checked")
    # calls per iteration
    checks = {"members visited": lambda fn, n: n.k == "call" and n.name == "visit" and n.d.get("cls", "").endswith("BytecodeMember"),
              "members counted": lambda fn, n: n.k == "un" and n.op == "++" and n.child(0).name == "seen_member_ids_"}
    for nm, m in checks.items():
        ls = list(every_iteration(f, m))
        rep.check(bool(ls) and all(ok for _, ok in ls), "function-body", f.loc, nm, "not done for every member")
    vis = [c for c in f.calls() if c.q == V + "FunctionVerifier::verify"]
    rep.check(bool(vis), "function-body", f.loc, "functions verified", "function bodies are not verified")
    for c in vis:
        # the only reason to skip a member is that it is no function
        skip_ok = True
        for h, body, backs in loop_bodies(f):
            from ..paths import position
            pb = position(f, c)
            if pb is None or pb[0] not in body:
                continue
            g = eng.guards(f)
            for b in body:
                blk = f.cfg.blocks[b]
                if len(blk.succ) != 2 or b == h:
                    continue
                for i, s in enumerate(blk.succ):
                    if s in body and not reaches(f, s, pb[0], h, body) and b != pb[0] and reaches(f, b, pb[0], h, body):
                        ef = g.edge_facts(blk, i, s)
                        if not any(x[0] == "cmp" and x[1] == "!=" and ".type()" in norm(x[2]) + norm(x[3]) and str(mt["Function"]) in x[2:] for x in ef):
                            skip_ok = False
        rep.check(skip_ok, "function-body", c.loc, "every function verified", "function bodies are skipped for another reason than the member type")
        counted = [n for n in f.walk() if n.k == "un" and n.op == "++" and n.child(0).name == "seen_member_ids_"]
        for n in counted:
            pa = None
            rep.check(not same_loop(f, n, c), "function-body", c.loc, "functions after members", "functions are verified before all members were visited")
    # exports
    crs = [c for c in f.calls() if c.q == V + "ModuleVerifier::check_reference" and in_loop(f, c)]
    rep.check(len(crs) >= 2, "member-reference", f.loc, "export name and value", "both the name and the value of an export must be checked")
    if crs:
        bes = back_edge_facts(eng, f, crs[0])
        rep.check(bool(bes) and all(any(eq(x, mt["Symbol"], ".type()") for x in fa.f) for fa in bes), "member-reference", f.loc, "export name kind",
                  "exports whose name is no symbol are accepted")
        sw = [s for s in switches(f) if s.enum == "tiro::BytecodeMemberType"]
        for k in ("Import", "RecordSchema"):
            ok = any(s.cases.get("tiro::BytecodeMemberType::" + k) is not None and ends_noreturn(f, s.cases["tiro::BytecodeMemberType::" + k]) for s in sw) or \
                all(any(x[0] == "cmp" and x[1] == "!=" and ".type()" in x[2] + x[3] and str(mt[k]) in x[2:] for x in flat(fa)) for fa in bes)
            rep.check(ok, "member-reference", f.loc, "export of %s" % k, "exports of internal kind %s are accepted" % k)
        # inside of the region where the exported value is a function
        ok = False
        g = eng.guards(f)
        good = lambda x: eq(x, ft["Normal"], "as_function().id") and "init" not in x[2] + x[3]
        for s in sw:
            b = s.cases.get("tiro::BytecodeMemberType::Function")
            if b is None:
                continue
            # every path from the case passes the comparison
            ok = ok or not path_avoiding(f, b, lambda blk, i: any(good(norm_fact(x)) for x in g.at_block_edge(blk, i) or ()))
        ends = region_end_facts(eng, f, lambda x: eq(x, mt["Function"], ".type()") and "init" not in x[2] + x[3])
        ok = ok or bool(ends) and all(any(good(x) for x in flat(fa)) for fa in ends)
        rep.check(ok, "member-reference", f.loc, "export function type", "exports of closure functions are accepted")
    per = list(every_iteration(f, lambda fn, n: n.k == "call" and n.q == V + "ModuleVerifier::check_reference"))
    rep.check(bool(per) and all(ok for _, ok in per), "member-reference", f.loc, "export references", "references of exports are not checked")

    # FunctionVerifier::verify
    f = prog.find(V + "FunctionVerifier::verify")
    fx = flat(Facts(eng.guards(f).at_exit()))

    def need(construct, facts, cond, msg):
        rep.check(any(cond(x) for x in facts), "function-body", f.loc, construct, msg)
    need("locals limit", fx, lambda x: x[0] == "cmp" and x[1] == "<=" and "locals()" in x[2] and re.match(r"^\d+$", x[3]), "the number of locals is not limited")
    need("empty body", fx, lambda x: x[0] == "f" and x[1].endswith(".empty()") or x[0] == "cmp" and x[1] in ("!=", "<") and "size()" in x[2] + x[3] and "0" in x[2:],
         "empty function bodies are accepted")
    hn = [n for n in f.walk() if n.k == "member" and n.name in ("from", "to", "target") and "ExceptionHandler" in n.d.get("cls", "")]
    bes = back_edge_facts(eng, f, hn[0]) if hn else []
    if not bes:
        rep.bad("function-body", f.loc, "handler table", "exception handler tables are not verified")
    for fa in bes:
        fl = flat(fa)
        need("handler start", fl, lambda x: x[0] == "t" and "is_instruction_start(" in x[1] and x[1].endswith(".from)"), "handler start is not checked")
        need("handler target", fl, lambda x: x[0] == "t" and "is_instruction_start(" in x[1] and x[1].endswith(".target)"), "handler target is not checked")
        need("handler start valid", fl, lambda x: x[0] == "t" and x[1].endswith(".from"), "invalid handler start is accepted")
        need("handler target valid", fl, lambda x: x[0] == "t" and x[1].endswith(".target"), "invalid handler target is accepted")
        need("handler end valid", fl, lambda x: x[0] == "t" and x[1].endswith(".to"), "invalid handler end is accepted")
        ends = [x for x in fa.f if x[0] == "t" and "is_instruction_start(" in x[1] and x[1].endswith(".to)")
                or x[0] == "cmp" and x[1] == "==" and ".to.value()" in x[2] + x[3] and "size()" in x[2] + x[3]
                or x[0] == "or" and all(y[0] == "t" and "is_instruction_start(" in y[1] or y[0] == "cmp" and y[1] == "==" and "size()" in y[2] + y[3] for y in x[1:])]
        rep.check(bool(ends), "function-body", f.loc, "handler end", "handler end is not checked")
        need("handler interval", fl, lambda x: x[0] == "cmp" and x[1] == "<" and ".from.value()" in x[2] and ".to.value()" in x[3], "empty or reversed handler intervals are accepted")
        orders = [x for x in fa.f if x[0] in ("cmp", "or") and any(y[0] == "cmp" and y[1] == "<=" and ".to.value()" in y[2] and ".from.value()" in y[3]
                                                             for y in (x[1:] if x[0] == "or" else [x]))]
        rep.check(bool(orders), "function-body", f.loc, "handler order", "handlers that overlap or are not sorted are accepted")
    # last instruction
    halting = {"Return", "Rethrow", "Jmp", "AssertFail"}
    sws = [s for s in switches(f) if s.enum == "tiro::BytecodeOp"]
    good = False
    for s in sws:
        allowed = {k.rsplit("::", 1)[1] for k, b in s.cases.items() if not ends_noreturn(f, b)}
        rest = s.default if s.default is not None else s.falls_out
        rep.check(allowed <= halting, "function-body", f.loc, "halting instructions", "a function may end with %s" % sorted(allowed - halting))
        rep.check(rest is not None and ends_noreturn(f, rest), "function-body", f.loc, "last instruction", "functions that do not end with a halting instruction are accepted")
        good = True
    if not good:
        hs = [x for x in fx if x[0] == "t" and "back()" in x[1] or x[0] == "cmp" and "back()" in x[2] + x[3]]
        rep.check(bool(hs), "function-body", f.loc, "last instruction", "functions that do not end with a halting instruction are accepted")
    ls = list(every_iteration(f, lambda fn, n: n.k == "call" and n.name == "visit" and n.d.get("cls", "").endswith("BytecodeInstr")))
    rep.check(bool(ls) and all(ok for _, ok in ls), "function-body", f.loc, "every instruction verified", "some instructions are not verified")
    f = prog.find(V + "FunctionVerifier::read_instructions")
    fx = flat(Facts(eng.guards(f).at_exit()))
    pb = [c for c in f.calls() if c.name in ("push_back", "emplace_back")]
    fb = [Facts(eng.guards(f).at(c)) for c in pb]
    rep.check(bool(fb) and all(any(x[0] == "f" and ("holds_alternative" in x[1] or "get_if" in x[1]) for x in fa.f) for fa in fb), "function-body", f.loc,
              "decode errors", "undecodable instructions are accepted")
    rep.check(any(x[0] == "cmp" and "code().size()" in x[2] and x[1] in ("<=", "<") and re.match(r"^\d+$", x[3]) for x in fx), "function-body", f.loc, "code size",
              "code that does not fit into 32 bit offsets is accepted")
    rep.require("function-body", 15, "rejection conditions")
    rep.require("member-reference", 20, "references")

    # verify-first
    loader = [f for f in prog.fns.values() if f.q == V + "ModuleLoader::run"]
    if not loader:
        raise AnalysisBroken("module loader not found")
    nload = 0
    for f in prog.fns.values():
        for c in f.calls():
            if c.q == V + "ModuleLoader::run" or c.d.get("ck") == "ctor" and c.d.get("cls") == V + "ModuleLoader":
                vs = [v for v in f.calls() if v.q == "tiro::vm::verify_module"]
                nload += 1
                rep.check(any(dominates(f, v, c) for v in vs), "verify-first", c.loc, "%s: %s" % (f.q, c.name), "the loader is reached without verification")
    f = prog.find("tiro::vm::verify_module")
    vs = [c for c in f.calls() if c.q == V + "ModuleVerifier::verify"]
    fa = all_paths_call(f, vs)
    rep.check(bool(vs) and fa, "verify-first", f.loc, "verify_module", "returns without having verified the module")
    rep.require("verify-first", 2, "loader uses")
    f = prog.find("tiro::vm::load_module")
    fx = flat(Facts(eng.guards(f).at_exit()))
    rep.check(any(x[0] == "cmp" and x[1] in ("<", "<=") and "member_count()" in x[2] for x in fx), "verify-first", f.loc, "module size", "the number of members is not limited")


def flat(fa):
    """facts and the operands of disjunctions"""
    return list(fa.f) + [y for x in fa.f if x[0] == "or" for y in x[1:]]


def path_avoiding(f, start, edge):
    """a path from block start that leaves the function or starts another iteration without passing an edge with edge(block, index)"""
    heads = {h for h, _, _ in loop_bodies(f)}
    seen = set()
    st = [start]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        blk = f.cfg.blocks[b]
        if blk.noreturn:
            continue
        if b == f.cfg.exit or b in heads:
            return True
        st.extend(s for i, s in enumerate(blk.succ) if s >= 0 and not edge(blk, i))
    return False


def all_paths_call(f, calls):
    from ..paths import position
    hit = {position(f, c)[0] for c in calls if position(f, c)}
    seen = set()
    st = [f.cfg.entry]
    while st:
        b = st.pop()
        if b in seen or b in hit:
            continue
        seen.add(b)
        if b == f.cfg.exit:
            return False
        if not f.cfg.blocks[b].noreturn:
            st.extend(s for s in f.cfg.blocks[b].succ if s >= 0)
    return True


def reaches(f, a, b, h, body):
    seen = set()
    st = [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen or x == h or x not in body:
            continue
        seen.add(x)
        st.extend(s for s in f.cfg.blocks[x].succ if s >= 0)
    return False


def in_loop(f, n):
    from ..paths import position
    p = position(f, n)
    return p is not None and any(p[0] in body for _, body, _ in loop_bodies(f))


def same_loop(f, a, b):
    from ..paths import position
    pa, pb = position(f, a), position(f, b)
    return any(pa[0] in body and pb[0] in body for _, body, _ in loop_bodies(f))


def lt_suffix(fa, a, suffix):
    for q in fa.same(a):
        for x in fa.f:
            if x[0] == "cmp" and x[1] == "<" and x[2] == q and x[3].endswith(suffix):
                return True
    return False


def has_kind(fa, path, v, _):
    for x in fa.f:
        if x[0] == "cmp" and x[1] == "==" and str(v) in x[2:]:
            o = x[3] if x[2] == str(v) else x[2]
            if re.search(r"(check|check_reference)\(%s[,)]" % re.escape(path), o) and "as_function" not in o:
                return True
    return False


def member_kinds(prog, rep):
    """(instruction, field) -> member type the interpreter relies on, derived from the unchecked casts of loaded members"""
    CAST = {"Symbol": "Symbol", "CodeFunctionTemplate": "Function", "RecordSchema": "RecordSchema", "String": "String"}
    f = prog.find("tiro::vm::BytecodeInterpreter::run")
    from .c06 import reach, READS, WIDTH
    from ..paths import Events, longest, refs_to
    sw = [s for s in switches(f) if s.enum == "tiro::BytecodeOp"][0]
    ev = Events(prog, lambda fn, n: READS.get(n.q) if n.k == "call" else None)
    out = {}
    for name, _ in enum_values(prog, "tiro::BytecodeOp"):
        fields = record(prog, "tiro::BytecodeInstr::" + name).fields
        if not any(x["t"] == MEM for x in fields):
            continue
        blk = sw.cases.get("tiro::BytecodeOp::" + name)
        if blk is None:
            continue
        full = longest(ev.from_block(f, blk, {sw.blk.id}))
        if len(full) != len(fields):
            continue
        region = reach(f, blk, {sw.blk.id})
        for b in region:
            for e in f.cfg.blocks[b].elems:
                if isinstance(e, list) or f.nodes[e] is None:
                    continue
                n = f.nodes[e]
                if n.k == "call" and n.name == "must_cast" and n.d.get("ta"):
                    t = n.d["ta"][0].rsplit("::", 1)[-1]
                    src = origin_member(f, n.obj)
                    if src is None or t not in CAST:
                        continue
                    for (_, rn), fld in zip(full, fields):
                        if fld["t"] == MEM and origin(f, src) is rn:
                            out[(name, fld["n"])] = CAST[t]
    if len(out) < 5:
        # fall back to the documented kinds if the interpreter was restructured
        out = {("LoadMember", "name"): "Symbol", ("StoreMember", "name"): "Symbol", ("LoadMethod", "name"): "Symbol",
               ("Closure", "tmpl"): "Function", ("Record", "schema"): "RecordSchema"}
        rep.note("member kinds taken from the documented instruction set")
    return out


def origin_member(f, n, depth=0):
    """argument of the get_member call that produces the handle n"""
    while n is not None and depth < 12:
        depth += 1
        n = origin(f, n)
        if n is None:
            return None
        if n.k == "call" and n.name == "get_member" and n.args:
            return n.args[0]
        if n.k == "call" and n.args and len(n.args) == 1:
            n = n.args[0]
            continue
        return None
    return None
