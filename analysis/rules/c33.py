"""The functions of the semantic passes are executed by an abstract interpreter for every kind of symbol, node, operator and flag. Rules: assign-checked:
every assignment operator has its left hand side checked, a rejected target marks the expression as erroneous. assign-target: only nodes that can be
assigned are accepted, and only after the check of their kind succeeded. immutable: imports, functions, types and constants are rejected with an error,
everything else is accepted. access-path: optional accesses on the way to a target are rejected. jump: break, continue and return are accepted only
where a loop or function is known. jump-scope: loops are visible exactly in their bodies and not in functions declared there. resolve: a name is bound
only to a declared and active symbol. activate: a variable becomes active after its initializer was visited. declare: symbols are constant exactly when
they are declared so, duplicates are errors. value-required: positions that need a value ask for one, missing values are errors."""
import re

from ..absint import V, integer, obj
from ..facts import AnalysisBroken
from ..paths import every_iteration
from ..scenario import Scenario, yes

T = "tiro::"
REPORT = ("report", "reportf", "vreportf", "has_error")
BOTH = [yes(True), yes(False)]


class S:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.error = dict(prog.enums[T + "Diagnostics::Level"]["c"])["Error"] if T + "Diagnostics::Level" in prog.enums else 0

    def method(self, cls, name, node=None):
        fs = [f for f in self.prog.fns.values() if f.cls and f.cls.split("::")[-1] == cls and f.name == name and f.cfg is not None and f.relfile.startswith("src/compiler/semantics")]
        if node is not None:
            fs = [f for f in fs if f.params and node in f.params[0].type]
        if not fs:
            raise AnalysisBroken("%s::%s not found" % (cls, name))
        return fs[0]

    def enum(self, t, v):
        return integer(v, v, t)

    def values(self, t):
        seen, out = set(), []
        for n, v in self.prog.enums[t]["c"]:
            if int(v) not in seen and not re.match(r"(First|Last|Base|Count)", n) and not n.startswith(("First", "Last")):
                seen.add(int(v))
                out.append((n, int(v)))
        return out

    def reported(self, ev):
        return any(e[0] in ("report", "reportf", "vreportf") and e[2][:1] == (str(self.error),) for e in ev)

    def marked(self, ev, what=None):
        return any(e[0] == "has_error" and e[2] == ("true",) and (what is None or e[1] == what) for e in ev)


def params(f):
    return f.params[0].name if f.params else ""


def run(prog, rep):
    for line in re.findall(r"(?:Rules: |\. )([a-z-]+): ([^.]*)", __doc__.replace("\n", " ")):
        rep.rule(*line)
    s = S(prog, rep)
    assignment(prog, rep, s)
    jumps(prog, rep, s)
    resolution(prog, rep, s)
    declarations(prog, rep, s)
    values(prog, rep, s)


def assignment(prog, rep, s):
    f = s.method("StructureChecker", "visit_binary_expr")
    p = params(f)
    OP = T + "BinaryOperator"
    for name, v in s.values(OP):
        for bad in (False, True):
            sc = Scenario(prog, {"operation": s.enum(OP, v), "check_assignment_lhs": BOTH,
                                 "has_error": lambda n, o, av, st: yes(bad) if not av else None},
                          REPORT + ("check_assignment_lhs", "visit_expr", "visit_node", "traverse_children"))
            for r, ev, st in sc.run(f):
                key = "%s%s" % (name, " (erroneous target)" if bad else "")
                if not name.startswith("Assign"):
                    rep.check(not any(e[0] == "check_assignment_lhs" for e in ev) and not s.marked(ev, p), "assign-checked", f.loc, key, "the operator is not an assignment")
                    continue
                chk = [e for e in ev if e[0] == "check_assignment_lhs"]
                if bad:
                    rep.check(s.marked(ev, p) or bool(chk), "assign-checked", f.loc, key, "an assignment with an erroneous target is not marked")
                    continue
                rep.check(bool(chk) and all(e[2][0] == p + ".left()" for e in chk), "assign-checked", f.loc, key, "the left hand side is not checked")
                rep.check(all(e[2][1:] == (str(name == "Assign").lower(),) for e in chk), "assign-checked", f.loc, key + " tuple", "tuples must be allowed exactly in plain assignments")
                if any(e[3] == "false" for e in chk):
                    rep.check(s.marked(ev, p), "assign-checked", f.loc, key + " rejected", "the expression is not marked although its target was rejected")
    # targets
    g = s.method("StructureChecker", "check_assignment_lhs")
    NT = T + "AstNodeType"
    PATH = {"FieldExpr", "TupleFieldExpr", "ElementExpr"}
    for name, v in s.values(NT):
        if not (name.endswith("Expr") or name.endswith("Literal")):
            continue
        for tup in (False, True):
            rec = lambda n, o, av, st: [yes(True), yes(False)]
            sc = Scenario(prog, {"type": s.enum(NT, v), "check_assignment_path": BOTH, "check_assignment_var": BOTH, "check_assignment_lhs": rec},
                          REPORT + ("check_assignment_path", "check_assignment_var", "check_assignment_lhs"))
            p = g.params[0].name
            for r, ev, st in sc.run(g, [obj(p), yes(tup)]):
                res = sc.path(r, st)
                key = "%s%s -> %s" % (name, " tuples allowed" if tup else "", res if res in ("true", "false") else "?")
                sub = [e for e in ev if e[0].startswith("check_")]
                if res == "false":
                    rep.check(s.reported(ev) or any(e[3] == "false" for e in sub), "assign-target", g.loc, key, "a target is rejected without an error")
                    rep.check(not (name in PATH or name == "VarExpr" or name == "TupleLiteral" and tup) or any(e[3] == "false" for e in sub), "assign-target", g.loc, key,
                              "a valid target is rejected")
                    continue
                want = "check_assignment_path" if name in PATH else "check_assignment_var" if name == "VarExpr" else "check_assignment_lhs" if name == "TupleLiteral" and tup else None
                rep.check(res == "true" and want is not None, "assign-target", g.loc, key, "a node of this type is accepted as the target of an assignment")
                if want is None:
                    continue
                rep.check(all(e[0] == want and e[3] == "true" for e in sub) and (bool(sub) or name == "TupleLiteral"), "assign-target", g.loc, key, "the target is accepted although its check did not succeed")
                if name == "TupleLiteral":
                    rep.check(all(e[2][1:] == ("false",) for e in sub), "assign-target", g.loc, key + " nested", "nested tuples are not supported as targets")
    hit = [ok for l, ok in every_iteration(g, lambda fn, n: n.k == "call" and n.name == "check_assignment_lhs")]
    rep.check(bool(hit) and all(hit), "assign-target", g.loc, "TupleLiteral items", "not every item of a tuple target is checked")
    # kinds of symbols
    h = s.method("StructureChecker", "check_assignment_var")
    ST = T + "SymbolType"
    for name, v in s.values(ST):
        for const in (False, True):
            sc = Scenario(prog, {"type": s.enum(ST, v), "is_const": yes(const)}, REPORT)
            for r, ev, st in sc.run(h):
                res = sc.path(r, st)
                key = "%s%s" % (name, " const" if const else "")
                good = name == "Parameter" or name == "Variable" and not const
                rep.check(res == str(good).lower(), "immutable", h.loc, key, "an assignment to this kind of symbol is %s" % ("rejected" if good else "accepted"))
                if not good:
                    rep.check(s.reported(ev), "immutable", h.loc, key + " report", "the assignment is rejected without an error")
                else:
                    rep.check(not s.reported(ev), "immutable", h.loc, key + " report", "a valid assignment is reported")
    for r, ev, st in Scenario(prog, {}, ("get_ref", "operator[]")).run(h):
        refs = [e for e in ev if e[0] == "get_ref"]
        rep.check(bool(refs) and all(e[2] == (params(h) + ".id()",) for e in refs), "immutable", h.loc, "symbol", "the symbol is not the one referenced by the expression")
    # access paths
    q = s.method("StructureChecker", "check_assignment_path")
    vis = [f for f in prog.fns.values() if "check_assignment_path" in f.q and f.q.endswith("::Visitor::check_access") and f.cfg is not None]
    if not vis:
        raise AnalysisBroken("check_access not found")
    AT = T + "AccessType"
    for name, v in s.values(AT):
        sc = Scenario(prog, {}, REPORT)
        for r, ev, st in sc.run(vis[0], [obj("node"), s.enum(AT, v)]):
            good = name == "Normal"
            rep.check(sc.path(r, st) == str(good).lower() and s.reported(ev) != good, "access-path", vis[0].loc, name, "the access is %s" % ("rejected" if good else "accepted, or rejected without an error"))
    cls = vis[0].cls
    n = 0
    for rec in sorted(prog.records):
        if not (rec.startswith(T + "Ast") and prog.derives(rec, T + "AstExpr")) or not any(x["n"] == "access_type_" for x in prog.records[rec].fields):
            continue
        ms = [f for f in prog.fns.values() if f.cls == cls and f.name.startswith("visit_") and f.cfg is not None and f.params and re.search(r"%s\b" % rec, f.params[0].type)]
        rep.check(bool(ms), "access-path", vis[0].loc, rec, "optional accesses of this kind are not checked")
        for m in ms:
            n += 1
            this = V("o", ty=cls, path="this")
            sc = Scenario(prog, {"check_access": BOTH, "check_assignment_path": BOTH}, ("check_access", "check_assignment_path", "access_type"))
            for r, ev, st in sc.run(m, this=this):
                ok = st.mem.get((this.id, "ok"))
                got = sc.it.decide(ok, st) if ok is not None else None
                acc = [e for e in ev if e[0] == "check_access"]
                rec_ = [e for e in ev if e[0] == "check_assignment_path"]
                want = bool(acc) and bool(rec_) and all(e[3] == "true" for e in acc + rec_)
                rep.check(got is not None and got == want, "access-path", m.loc, "%s %s" % (rec, ",".join(e[3] for e in acc + rec_)), "the result is %s" % got)
                rep.check(not got or any(e[1] == params(m) for e in ev if e[0] == "access_type"), "access-path", m.loc, "%s node" % rec, "the access type of another node is checked")
    if n < 3:
        raise AnalysisBroken("access expressions not found")
    for r, ev, st in Scenario(prog, {}, ("visit",)).run(q):
        rep.check(any(e[0] == "visit" and e[2] and e[2][0] == params(q) for e in ev), "access-path", q.loc, "visit", "the target is not visited")


def jumps(prog, rep, s):
    for name, field in (("visit_continue_expr", "current_loop_"), ("visit_break_expr", "current_loop_"), ("visit_return_expr", "current_function_")):
        f = s.method("StructureChecker", name)
        for known in (True, False):
            this = obj("this", f.cls)
            sc = Scenario(prog, {}, REPORT)
            for r, ev, st in sc.run(f):
                got = sc.truth(st, "this." + field)
                if got is not None and got != known:
                    continue
                if known:
                    rep.check(got is True and not s.reported(ev) or got is None and s.reported(ev), "jump", f.loc, "%s inside" % name, "the statement is %s" % ("rejected" if got else "accepted without a test of " + field))
                elif got is False:
                    rep.check(s.reported(ev) and s.marked(ev, params(f)), "jump", f.loc, "%s outside" % name, "the statement is accepted")
    VISITS = ("check", "visit_node", "visit_decl", "visit_expr", "visit_stmt", "traverse_children")
    loops = [q for q in sorted(prog.records) if q.startswith(T + "Ast") and prog.derives(q, T + "AstStmt") and any(x["n"] == "body_" for x in prog.records[q].fields)]
    if len(loops) < 3:
        raise AnalysisBroken("loop statements not found")

    def active(sc, st, field):
        """value of a state field of the checker that is in force: the last replacement whose guard is alive"""
        root = min([k[0] for k in st.env] or [0])
        held = {(v.path or "") for k, v in st.env.items() if k[0] == root and v.kind == "s"}
        out = None
        for i, (fl, val) in enumerate(st.mem.get(("rep",), ())):
            if fl == "this." + field and "reset:%d" % i in held:
                out = val
        return out

    def execute(f):
        seen = []
        sc = None

        def replace(n, o, av, st):
            k = st.mem.get(("rep",), ())
            v = sc.path(av[1])
            st.mem[("rep",)] = k + ((sc.path(av[0]), "null" if re.search(r"null|^$|^0$", v) else v),)
            return obj("reset:%d" % len(k))

        def visit(n, o, av, st):
            seen.append((n.name, sc.path(av[0]) if av else sc.path(o), active(sc, st, "current_loop_"), active(sc, st, "current_function_")))
            return V("v")
        fixed = {"replace_value": replace}
        fixed.update({x: visit for x in VISITS})
        fixed.update({x: BOTH for x in ("check_assignment_lhs", "check_assignment_path", "check_assignment_var")})
        sc = Scenario(prog, fixed, ("replace_value",) + VISITS)
        res = sc.run(f)
        return seen, res
    for q in loops:
        name = q.split("::")[-1]
        f = s.method("StructureChecker", "visit_" + re.sub(r"(?<!^)([A-Z])", r"_\1", name[3:]).lower(), q + " ")
        p = params(f)
        seen, res = execute(f)
        body = [x for x in seen if x[1] == p + ".body()"]
        rep.check(bool(body) and all(x[2] == p for x in body), "jump-scope", f.loc, "%s body" % name, "the body of the loop is checked without knowing the loop (%s)" % [x[2] for x in body])
        for x in seen:
            if x[1] != p + ".body()":
                rep.check(x[2] is None, "jump-scope", f.loc, "%s %s" % (name, x[1].split(".")[-1]), "a part outside of the body is checked as part of the loop")
    f = s.method("StructureChecker", "visit_func_decl")
    p = params(f)
    seen, res = execute(f)
    rep.check(bool(seen) and all(x[3] == p for x in seen), "jump-scope", f.loc, "function", "the function is not known while its children are checked")
    rep.check(bool(seen) and all(x[2] == "null" for x in seen), "jump-scope", f.loc, "function loops", "loops outside of the function are visible in its body")
    # other functions do not touch the state
    for g in prog.fns.values():
        if g.cls == f.cls and g.cfg is not None and not g.q.endswith("::StructureChecker"):
            for n in g.nodes:
                if n is not None and n.k == "bin" and n.op == "=" and n.child(0) is not None and n.child(0).k == "member" and n.child(0).name in ("current_loop_", "current_function_"):
                    rep.bad("jump-scope", n.loc, "%s writes %s" % (g.q, n.child(0).name), "the state is not restored when the function returns")
    for c, call in ((a, b) for fn in prog.fns.values() if fn.q == T + "replace_value" for a, b in prog.callers().get(fn.usr, ())):
        if not c.relfile.startswith("src/compiler/semantics"):
            continue
        rep.ok("jump-scope", "%s restores" % c.q)
    for g in prog.fns.values():
        if g.cls == f.cls and g.cfg is not None and (g.name in VISITS[:1] or g.name.startswith("visit_") and g.name not in ("visit_func_decl",) and not any(
                g.name == "visit_" + re.sub(r"(?<!^)([A-Z])", r"_\1", q.split("::")[-1][3:]).lower() for q in loops)):
            sn, res = execute(g)
            for x in sn:
                rep.check(x[2] is None and x[3] is None, "jump-scope", g.loc, g.name, "the known loop or function is changed by an unrelated node")


def resolution(prog, rep, s):
    f = s.method("SymbolResolver", "visit_var_expr")
    p = params(f)

    def valid(n, o, av, st):
        return BOTH
    sc = Scenario(prog, {"active": BOTH, "operator bool": valid, "valid": valid, "captured": None}, lambda n, q: n.name in REPORT + ("active", "register_ref", "find_name") or n.name in ("operator bool", "valid") and "Id::" in q)
    n = 0
    for r, ev, st in sc.run(f):
        n += 1
        ref = [e for e in ev if e[0] == "register_ref"]
        inactive = [e for e in ev if e[0] == "active" and not e[2] and e[3] == "false"]
        act = [e for e in ev if e[0] == "active" and not e[2] and e[3] == "true"]
        missing = [e for e in ev if e[0] in ("operator bool", "valid") and e[3] == "false"]
        found = [e for e in ev if e[0] in ("operator bool", "valid") and e[3] == "true"]
        key = "%s%s%s" % ("bound" if ref else "unbound", " inactive" if inactive else "", " undeclared" if missing else "")
        if ref:
            rep.check(bool(act) and not inactive, "resolve", f.loc, key, "the name is bound to a symbol that is not active yet")
            rep.check(bool(found) and not missing, "resolve", f.loc, key, "the name is bound although it was not found")
            rep.check(all(e[2][0] == p + ".id()" for e in ref), "resolve", f.loc, key, "the binding is recorded for another node")
            rep.check(not s.reported(ev), "resolve", f.loc, key, "a valid reference is reported")
        else:
            rep.check(s.reported(ev) and s.marked(ev, p), "resolve", f.loc, key, "the name is not bound, but no error is reported")
            rep.check(bool(inactive or missing), "resolve", f.loc, key, "a valid reference is rejected")
        rep.check(any(e[0] == "find_name" and e[2][1:] == (p + ".name()",) for e in ev), "resolve", f.loc, "lookup", "another name is looked up")
    if n < 3:
        raise AnalysisBroken("SymbolResolver::visit_var_expr: outcomes not found")
    SC = T + "ScopeType"
    for name, v in s.values(SC):
        sc = Scenario(prog, {"active": yes(), "operator bool": yes(), "valid": yes(), "type": s.enum(SC, v), "captured": lambda n, o, av, st: V("v") if av else yes(False), "is_strict_ancestor": yes()}, ("captured",))
        got = any(e[0] == "captured" and e[2] == ("true",) for r, ev, st in sc.run(f) for e in ev)
        if name == "Invalid":
            continue
        rep.check(got == (name not in ("Module", "File", "Global")), "resolve", f.loc, "captured %s" % name, "a symbol in a scope of this kind is %smarked as captured" % ("" if got else "not "))
    # activation
    W = ("dispatch", "activate_var", "activate", "dispatch_children")

    def trace(name):
        g = s.method("SymbolResolver", name)
        sc = Scenario(prog, {x: V("v") for x in W} | {"has_error": yes(False)}, W)
        return g, [ev for r, ev, st in sc.run(g)]

    def ordered(g, evs, key, first, then, msg, need=True):
        for ev in evs:
            idx = [i for i, e in enumerate(ev) if then(e)]
            rep.check(all(any(first(x) for x in ev[:i]) for i in idx), "activate", g.loc, key, msg)
        rep.check(not need or any(any(then(e) for e in ev) for ev in evs), "activate", g.loc, key + " done", "nothing is activated")
    g, evs = trace("visit_var_decl")
    ordered(g, evs, "variables", lambda e: e[0] == "dispatch" and e[2][0].endswith(".init()"), lambda e: e[0] == "activate_var", "a variable is active in its own initializer")
    for ev in evs:
        rep.check(sum(e[0] == "activate_var" for e in ev) == sum(e[0] == "dispatch" for e in ev), "activate", g.loc, "all variables", "a binding is not activated")
    g, evs = trace("visit_for_each_stmt")
    p = params(g)
    ordered(g, evs, "for each", lambda e: e[0] == "dispatch" and e[2][0] == p + ".expr()", lambda e: e[0] == "activate_var", "the variable is active in the container expression")
    ordered(g, evs, "for each body", lambda e: e[0] == "activate_var" and e[2][0] == p + ".spec()", lambda e: e[0] == "dispatch" and e[2][0] == p + ".body()", "the variable is not active in the body")
    for name in ("visit_func_decl", "visit_param_decl", "visit_import_decl"):
        g, evs = trace(name)
        for ev in evs:
            rep.check(any(e[0] == "activate" and e[2] == (params(g),) for e in ev), "activate", g.loc, name, "the declared symbol does not become active")
    g, evs = trace("visit_func_decl")
    ordered(g, evs, "recursion", lambda e: e[0] == "activate", lambda e: e[0] == "dispatch_children", "the function is not active in its body")
    ST = T + "SymbolType"
    g = s.method("SymbolResolver", "visit_module")
    for name, v in s.values(ST):
        sc = Scenario(prog, {"type": s.enum(ST, v), "dispatch_children": V("v"), "active": lambda n, o, av, st: V("v") if av else None}, ("active", "dispatch_children"))
        for r, ev, st in sc.run(g):
            act = [i for i, e in enumerate(ev) if e[0] == "active" and e[2] == ("true",)]
            d = [i for i, e in enumerate(ev) if e[0] == "dispatch_children"]
            rep.check(not act or name == "Function", "activate", g.loc, "module %s" % name, "symbols of this kind are active before their declaration")
            rep.check(bool(d) and all(i < d[0] for i in act), "activate", g.loc, "module order", "functions are activated after their uses were resolved")
    acts = [f for f in prog.fns.values() if f.q == T + "Symbol::active" and f.params]
    for a in acts:
        for c, call in prog.callers().get(a.usr, ()):
            rep.check(c.cls is not None and c.cls.endswith("::SymbolResolver") or "SymbolResolver" in c.q, "activate", call.loc, "caller %s" % c.q, "a symbol becomes active outside of the resolution of names")
    for c in [f for f in prog.fns.values() if f.q == T + "Symbol::Symbol" and f.cfg is not None and len(f.params) >= 3]:
        rep.check(not any(n is not None and n.k == "call" and n.name == "set" for n in c.nodes), "activate", c.loc, "constructor", "a new symbol is active from the start")
    for spec in ("visit_var_binding_spec", "visit_tuple_binding_spec"):
        fs = [f for f in prog.fns.values() if f.name == spec and f.cls and f.cls.endswith("::ActivateVarVisitor") and f.cfg is not None]
        if not fs:
            raise AnalysisBroken("ActivateVarVisitor not found")
        for g in fs:
            evs = [ev for r, ev, st in Scenario(prog, {"activate": V("v")}, ("activate",)).run(g)]
            if "tuple" in spec:
                hit = [ok for l, ok in every_iteration(g, lambda fn, n: n.k == "call" and n.name == "activate")]
                rep.check(bool(hit) and all(hit), "activate", g.loc, spec, "not every name is activated")
            else:
                rep.check(all(any(e[2] == (params(g) + ".name()",) for e in ev) for ev in evs), "activate", g.loc, spec, "the name is not activated")


def declarations(prog, rep, s):
    f = s.method("ScopeBuilder", "register_decl")
    mt = [t for t in prog.enums if t.endswith("ScopeBuilder::Mutability")]
    if not mt:
        raise AnalysisBroken("mutability of declarations not found")
    mut = dict(prog.enums[mt[0]]["c"])
    p = params(f)
    for name, v in mut.items():
        ok_id, bad_id = obj("sym"), obj("none")

        def reg(n, o, av, st):
            k = st.mem.get(("tries",), 0)
            st.mem[("tries",)] = k + 1
            return [ok_id, bad_id] if k == 0 else ok_id

        def valid(n, o, av, st):
            return yes(o is not None and (o.path or "") == "sym") if o is not None and (o.path or "") in ("sym", "none") else None
        for st_name, sv in s.values(T + "SymbolType"):
            sc = Scenario(prog, {"register_decl": reg, "operator bool": valid, "valid": valid, "type": lambda n, o, av, st: s.enum(T + "SymbolType", sv) if o is not None and o.path == "symbol" else None}, REPORT + ("register_decl", "is_const"))
            args = [obj(f.params[0].name), obj(f.params[1].name), integer(int(v), int(v), mt[0]), obj("symbol")]
            for r, ev, st in sc.run(f, args):
                first = [e for e in ev if e[0] == "register_decl"]
                key = "%s %s" % (name, st_name)
                const = [e for e in ev if e[0] == "is_const"]
                rep.check(bool(const) and const[-1][2] == (str(name == "Constant").lower(),), "declare", f.loc, key, "the symbol is not recorded as %s" % name.lower())
                if first and first[0][3] == "none":
                    rep.check(s.reported(ev) and s.marked(ev, p), "declare", f.loc, key + " duplicate", "a duplicate declaration is not reported")
                else:
                    rep.check(not s.reported(ev), "declare", f.loc, key + " unique", "a valid declaration is reported")
    C = int(mut["Constant"])

    def decls(name, want, fixed=None, tag=""):
        g = s.method("ScopeBuilder", name)
        sc = None

        def names(n, o, av, st):
            cb = [a for a in av if a.kind == "l"]
            return None if not cb else [(V("v"))]
        calls = []

        def through(it, fn, n, q, o, av, st):
            if n.name == "visit_binding_names":
                cb = [a for a in av if a.kind == "l"]
                if cb:
                    return [(V("v"), x) for _, x in it.call_fn(cb[0].fn[0], [obj("name")], [None], cb[0].fid, st, 1, closure=cb[0].env)]
            return Scenario.intercept(sc, it, fn, n, q, o, av, st)
        sc = Scenario(prog, {"register_decl": obj("sym"), **(fixed or {})}, ("register_decl",))
        sc.intercept = through
        got = set()
        for r, ev, st in sc.run(g):
            for e in ev:
                if e[0] == "register_decl":
                    got.add(e[2][2])
        rep.check(got == {str(want)}, "declare", g.loc, name + tag, "the declared symbol is recorded with the wrong mutability (%s)" % sorted(got))
    M = int(mut["Mutable"])
    decls("visit_import_decl", C)
    decls("visit_func_decl", C)
    decls("visit_param_decl", M)
    decls("visit_for_each_stmt", C)
    decls("visit_binding", C, {"is_const": yes(True)}, " const")
    decls("visit_binding", M, {"is_const": yes(False)}, " var")
    # constants are initialized
    g = s.method("StructureChecker", "visit_binding")
    for const in (True, False):
        sc = Scenario(prog, {"is_const": yes(const), "visit_node": V("v"), "init": obj("init", "tiro::AstExpr *")}, REPORT)
        for r, ev, st in sc.run(g):
            init = sc.truth(st, "init")
            key = "%s%s" % ("constant" if const else "variable", "" if init is not False else " without initializer")
            if not const or init is True:
                rep.check(not s.reported(ev), "declare", g.loc, key, "a valid declaration is reported")
            else:
                rep.check(s.reported(ev) and s.marked(ev, params(g)), "declare", g.loc, key, "a constant without initializer is accepted")
    g = s.method("StructureChecker", "visit_file")
    NT = T + "AstNodeType"
    for name, v in s.values(NT):
        if not name.endswith("Stmt"):
            continue
        sc = Scenario(prog, {"type": s.enum(NT, v), "visit_node": V("v")}, REPORT)
        outs = sc.run(g)
        good = name in ("EmptyStmt", "DeclStmt")
        rep.check(any(s.reported(ev) for r, ev, st in outs) != good, "declare", g.loc, "top level %s" % name, "statements of this type are %s at the top level" % ("rejected" if good else "accepted"))
    g = s.method("StructureChecker", "visit_record_literal")
    sc = Scenario(prog, {"visit_literal": V("v")}, REPORT + ("emplace", "try_emplace", "insert"))
    outs = sc.run(g)
    ins = 0
    for r, ev, st in outs:
        for e in ev:
            if e[0] in ("emplace", "try_emplace", "insert"):
                ins += 1
                new = [sc.it.decide(v, st) for k, v in sc.it.interned.items() if v.kind == "b" and (e[3] + ")" in k or e[3] + ".second" in k)]
                rep.check(True in new and not s.reported(ev) or s.reported(ev) and False in new, "declare", g.loc, "record keys", "duplicate keys are accepted")
    rep.check(ins > 0, "declare", g.loc, "record keys found", "duplicate keys are accepted")
    # exports
    g = s.method("ScopeBuilder", "mark_exported")
    sc = Scenario(prog, {"is_const": BOTH, "operator bool": BOTH, "valid": BOTH}, lambda n, q: n.name in REPORT + ("is_const", "exported", "name") or n.name in ("operator bool", "valid") and "InternedString" in q)
    for r, ev, st in sc.run(g):
        exp = [e for e in ev if e[0] == "exported" and e[2] == ("true",)]
        bad = [e for e in ev if e[0] in ("is_const", "operator bool", "valid") and e[3] == "false"]
        rep.check(bool(exp) != s.reported(ev), "declare", g.loc, "export %s" % bool(exp), "an export is neither recorded nor reported")
        rep.check(not exp or not bad and any(e[0] == "is_const" for e in ev), "declare", g.loc, "export constants", "a variable can be exported")
        rep.check(bool(exp) or bool(bad), "declare", g.loc, "export valid", "a constant cannot be exported")
    g = s.method("ScopeBuilder", "handle_decl_modifiers")
    SC = T + "ScopeType"
    for name, v in s.values(SC):
        sc = Scenario(prog, {"type": s.enum(SC, v), "visit": V("v"), "has_error": yes(False), "is_instance": yes(True)}, REPORT + ("visit",))
        for r, ev, st in sc.run(g):
            vis = any(e[0] == "visit" for e in ev)
            rep.check(not vis or name == "File", "declare", g.loc, "export in %s" % name, "exports are accepted outside of the top level")
        if name == "File":
            rep.check(any(any(e[0] == "visit" for e in ev) for r, ev, st in sc.run(g)), "declare", g.loc, "export in File", "exports are not recorded")


NEEDS = {  # function of the type analyzer: child -> required
    "visit_if_expr": {"cond": "true", "then_branch": "required", "else_branch": "required"}, "visit_return_expr": {"value": "true"}, "visit_assert_stmt": {"cond": "true", "message": "true"},
    "visit_for_stmt": {"decl": "false", "cond": "true", "step": "false", "body": "false"}, "visit_for_each_stmt": {"expr": "true", "body": "false"}, "visit_defer_stmt": {"expr": "false"},
    "visit_while_stmt": {"cond": "true", "body": "false"}, "visit_expr_stmt": {"expr": "required"}, "visit_binding": {"init": "true"}, "visit_func_decl": {"body": "value"}}


def values(prog, rep, s):
    for name, need in sorted(NEEDS.items()):
        f = s.method("TypeAnalyzer", name)
        p = f.params[0].name
        for req in (True, False):
            for val in (True, False):
                sc = Scenario(prog, {"dispatch": V("v"), "body_is_value": yes(val), "dispatch_list": V("v"), "has_error": lambda n, o, av, st: yes(False) if not av else None}, ("dispatch",))
                want = {"true": "true", "false": "false", "required": str(req).lower(), "value": str(val).lower()}
                for r, ev, st in sc.run(f, [obj(p), yes(req)]):
                    for child, k in need.items():
                        got = {e[2][1] for e in ev if e[2][0] == "%s.%s()" % (p, child)}
                        rep.check(got == {want[k]}, "value-required", f.loc, "%s %s" % (name, child), "a value is %srequired here: %s" % ("" if want[k] == "true" else "not ", sorted(got)))
    f = s.method("TypeAnalyzer", "visit_node")
    lam = [g for g in prog.fns.values() if g.outer is f and g.cfg is not None]
    rep.check(bool(lam), "value-required", f.loc, "children", "the children are not visited")
    for g in lam:
        for r, ev, st in Scenario(prog, {"dispatch": V("v")}, ("dispatch",)).run(g):
            rep.check(any(e[2][1:] == ("true",) for e in ev), "value-required", f.loc, "children", "operands do not have to be values")
    for name in ("visit_block_expr", "visit_if_expr"):
        f = s.method("TypeAnalyzer", name)
        p = f.params[0].name
        for req in (True, False):
            sc = Scenario(prog, {"dispatch": V("v"), "can_use_as_value": BOTH}, REPORT + ("can_use_as_value", "dispatch", "register_type"))
            for r, ev, st in sc.run(f, [obj(p), yes(req)]):
                last = [e for e in ev if e[0] == "can_use_as_value"]
                key = "%s %s" % (name, "required" if req else "optional")
                ty = [e[2][-1] for e in ev if e[0] == "register_type" and e[2][0] == p]
                none = str({n: int(v) for n, v in prog.enums[T + "ExprType"]["c"]}["None"])
                rep.check(bool(ty), "value-required", f.loc, key + " type", "no type is recorded")
                if not req and any(e[3] == "false" for e in last):
                    rep.check(all(t == none for t in ty), "value-required", f.loc, key + " type", "the expression counts as a value although a branch or the last statement is not one")
                if req:
                    bad = not last or last[-1][3] == "false"
                    rep.check(bool(last), "value-required", f.loc, key, "it is not tested whether there is a value")
                    rep.check(not bad or s.marked(ev, p), "value-required", f.loc, key, "a missing value is not an error")
                    no_else = sc.truth(st, p + ".else_branch()") is False
                    rep.check(not bad or name != "visit_block_expr" and not no_else or s.reported(ev), "value-required", f.loc, key + " report", "a missing value is not reported")
                else:
                    rep.check(not s.reported(ev) and not s.marked(ev), "value-required", f.loc, key, "a missing value is reported where none is required")
    f = s.method("TypeAnalyzer", "visit_expr")
    for kind in ("AstContinueExpr", "AstBreakExpr", "AstCallExpr"):
        inst = lambda n, o, av, st: yes(any(kind in x for x in n.d.get("ta") or [n.q or ""]))
        et = {n: int(v) for n, v in prog.enums[T + "ExprType"]["c"]}
        nt = dict((n, int(v)) for n, v in s.values(T + "AstNodeType"))
        sc = Scenario(prog, {"visit_node": V("v"), "is_instance": inst, "type": s.enum(T + "AstNodeType", nt[kind[3:]])}, ("register_type", "visit_node"))
        for r, ev, st in sc.run(f):
            got = {e[2][-1] for e in ev if e[0] == "register_type"}
            rep.check(got == {str(et["Value" if kind == "AstCallExpr" else "Never"])}, "value-required", f.loc, kind, "the type is recorded as %s" % sorted(got))
    vals = {int(v): n for n, v in prog.enums[T + "ExprType"]["c"]}
    g = [f for f in prog.fns.values() if f.name == "can_use_as_value" and f.cfg is not None]
    for f in g:
        for v, n in vals.items():
            sc = Scenario(prog, {})
            for r, ev, st in sc.run(f, [s.enum(T + "ExprType", v)]):
                rep.check(sc.path(r, st) == str(n != "None").lower() or sc.it.decide(r, st) == (n != "None"), "value-required", f.loc, "type %s" % n, "the type is wrongly classified")
