"""The compiler's stages, the parser's error events, the literal parsers, the syntax tree and ast builders and the C interface are executed by an abstract
interpreter. Rules: stages: every stage runs only after the diagnostics were asked, outside of assertions, and reported no error; a module and
success are delivered only on paths where all stages ran and the last answer was no error. sources: only validated text is tokenized, an invalid file (whose
tree has a root) and input left over after the parser stopped are errors. tree-errors: every error reported by the parser reaches the syntax tree and from there the
diagnostics, for every file. error-nodes: a syntax node of kind Error is completed only together with an error message. literals: a literal parser that
fails has called its error sink. ast-errors: the ast builder gives up on a well formed syntax node only after reporting an error. count: an error report
is stored and counted, and errors are visible afterwards. ir-errors: the code generator never accepts erroneous nodes and undefined variables are
reported. messages: every message is handed to the caller of the C interface with its severity, a failed compilation is an error, and modules are
handed out only if there is one."""
import re

from ..absint import V, Budget, integer, obj
from ..facts import AnalysisBroken
from ..flow import after_all
from ..must import Must
from ..paths import every_iteration
from ..scenario import Scenario, yes

T = "tiro::"
BOTH = [yes(True), yes(False)]
ANON = "(anonymous namespace)::"


def fns(prog, q):
    return [f for f in prog.fns.values() if f.q.replace(ANON, "") == q and f.cfg is not None]


def chk(rep, rule, where, what, cond, msg, key):
    if where is None:
        loc, name = "src/compiler", ""
    elif callable(getattr(where, "loc", None)):
        loc, name = where.loc(), ""
    else:
        loc, name = where.loc, where.q.replace(ANON, "") if hasattr(where, "usr") else ""
    rep.check(bool(cond), rule, loc, (name + " " + str(key)).strip(), msg)


def one(prog, q):
    fs = fns(prog, q)
    if not fs:
        raise AnalysisBroken("%s not found" % q)
    return fs[0]


def known(sc, st, o, field):
    """what a path knows about a field of the object o: True, False or None"""
    for k, x in st.mem.items():
        if isinstance(k, tuple) and len(k) == 2 and k[1] == field:
            t = sc.it.decide(x, st)
            if t is not None:
                return t
    return None


def this(cls):
    return V("o", ty=T + cls, path="this")


def run(prog, rep):
    for line in re.findall(r"(?:Rules: |\. )([a-z-]+): ([^.]*)", __doc__.replace("\n", " ")):
        rep.rule(*line)
    stages(prog, rep)
    sources(prog, rep)
    tree(prog, rep)
    nodes(prog, rep)
    literals(prog, rep)
    ast(prog, rep)
    count(prog, rep)
    ir(prog, rep)
    messages(prog, rep)


def levels(prog):
    return {k: int(v) for k, v in prog.enums[T + "Diagnostics::Level"]["c"]}


# ---- stages --------------------------------------------------------------------------------------------------------------------------------

STAGES = {"build_module_ast", "analyze_ast", "generate", "bytecode", "resolve_symbols", "check_types", "check_structure"}


def has_errors(prog):
    def f(n, o, a, st):
        if n.d.get("mac") == "TIRO_DEBUG_ASSERT":
            return V("b", pred=True)
        return BOTH
    return f


def stages(prog, rep):
    f = one(prog, T + "Compiler::run")

    def watch(n, q):
        return q.endswith("::has_errors") and n.d.get("mac") != "TIRO_DEBUG_ASSERT" or n.name in ("parse_file", "build_module_ast", "analyze_ast", "compile_module")
    asserted = lambda n, o, a, st: yes(False) if n.d.get("mac") == "TIRO_DEBUG_ASSERT" else BOTH
    sc = Scenario(prog, fixed={T + "Diagnostics::has_errors": asserted, T + "Compiler::has_errors": asserted}, watch=watch)
    seen = set()
    for v, ev, st in sc.run(f, this=this("Compiler")):
        res = {k[1]: sc.path(x, st) for k, x in st.mem.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == v.id}
        module = res.get("module", "") not in ("", "null", "nullptr")
        success = res.get("success")
        order, dirty, last = [], None, None
        for e in ev:
            if e[0] == "has_errors":
                if e[3] == "true":
                    last = "true"
                else:
                    dirty, last = None, "false"
                continue
            name = "generate" if e[0] == "compile_module" and e[1] else "bytecode" if e[0] == "compile_module" else e[0]
            if name == "parse_file":
                continue
            seen.add(name)
            chk(rep, "stages", f, "%s runs only after no error was reported" % name, dirty is None and last != "true",
                      "%s runs although %s" % (name, "errors were reported" if last == "true" else "%s may have reported errors" % dirty), "stage:%s" % name)
            dirty = None if name == "bytecode" else name
            order.append(name)
        if module:
            seen.add("module")
            ok = order == ["build_module_ast", "analyze_ast", "generate", "bytecode"]
            chk(rep, "stages", f, "a module is delivered only after all stages", ok and dirty is None, "a module is delivered after %s" % ", ".join(order), "module")
        if last == "true":
            seen.add("failed")
            chk(rep, "stages", f, "errors mean failure", not module and success in (None, "false"), "compilation succeeds although errors were reported", "failed:%d" % len(order))
        if module and success != "true":
            chk(rep, "stages", f, "a delivered module means success", False, "a module is delivered without success", "module-success")
    chk(rep, "stages", f, "all stages are present", seen >= {"build_module_ast", "analyze_ast", "generate", "bytecode", "module", "failed"},
              "missing: %s" % ", ".join(sorted({"build_module_ast", "analyze_ast", "generate", "bytecode", "module", "failed"} - seen)), "all")
    # the initial value of the result
    for r in prog.records.values() if not isinstance(prog.records, dict) else [prog.records.get(T + "CompilerResult")]:
        if r is None:
            raise AnalysisBroken("CompilerResult not found")
    g = one(prog, T + "analyze_ast")
    sc = Scenario(prog, fixed={T + "Diagnostics::has_errors": asserted}, watch=lambda n, q: n.name in ("resolve_symbols", "check_types", "check_structure") or watch(n, q))
    seen = set()
    for v, ev, st in sc.run(g):
        last, dirty = None, None
        for e in ev:
            if e[0] == "has_errors":
                dirty, last = None, e[3]
                continue
            chk(rep, "stages", g, "%s runs only after no error was reported" % e[0], dirty is None and last != "true",
                      "%s runs although %s" % (e[0], "errors were reported" if last == "true" else "%s may have reported errors" % dirty), "pass:%s" % e[0])
            dirty = e[0]
            seen.add(e[0])
    chk(rep, "stages", g, "all semantic passes run", len(seen) == 3, "only %s run" % ", ".join(sorted(seen)), "passes")


# ---- sources -------------------------------------------------------------------------------------------------------------------------------

def sources(prog, rep):
    f = one(prog, T + "Compiler::parse_file")
    seen = set()
    valid = V("o", ty=T + "Utf8ValidationResult", path="valid")
    for _ in (True,):
        sc = Scenario(prog, fixed={T + "validate_utf8": valid, "at": BOTH},
                      watch=lambda n, q: n.name in ("push_back", "error", "at", "validate_utf8", "build_syntax_tree", "parse_file", "root_id") or q.startswith(T + "Lexer::Lexer") or n.name == "Lexer")
        for v, ev, st in sc.run(f, this=this("Compiler")):
            ok = known(sc, st, valid, "ok")
            names = [e[0] for e in ev]
            if any(e[0] == "Lexer" for e in ev):
                seen.add("lexed")
                chk(rep, "sources", f, "only validated text is tokenized", ok is True and names.index("validate_utf8") < names.index("Lexer") and
                          ev[names.index("validate_utf8")][2] == ev[names.index("Lexer")][2][:1],
                          "text that is not valid is tokenized", "valid")
                chk(rep, "sources", f, "tokens are parsed into a tree", names[-1] == "build_syntax_tree" and "parse_file" in names, "the tree is not built from the parsed file", "parsed")
                left = [e for e in ev if e[0] == "at"]
                if left and left[-1][3] == "false":
                    seen.add("left")
                    chk(rep, "sources", f, "input left over is an error", any(e[0] == "error" for e in ev[ev.index(left[-1]):]), "input left over after parsing is accepted", "eof")
                elif not left:
                    chk(rep, "sources", f, "input left over is an error", False, "the parser may stop before the end of the file", "eof")
                elif left[-1][2] != (str(eof(prog)),):
                    chk(rep, "sources", f, "input left over is an error", False, "the end of the file is not tested", "eof")
            else:
                seen.add("invalid")
                chk(rep, "sources", f, "an invalid file is an error", any(e[0] == "push_back" and e[1].endswith(".errors()") for e in ev), "an invalid file is accepted without an error", "invalid")
                rooted = "build_syntax_tree" in names or any(e[0] == "root_id" and len(e[2]) == 1 for e in ev)
                chk(rep, "sources", f, "the tree of an invalid file has a root", rooted, "the tree of an invalid file has no root, which ends in an internal error", "root")
    chk(rep, "sources", f, "all outcomes are covered", seen >= {"lexed", "invalid"}, "outcomes found: %s" % ", ".join(sorted(seen)), "all")
    # every file is parsed and built
    r = one(prog, T + "Compiler::run")
    lam = [g for g in prog.fns.values() if g.cfg is not None and g.relfile == r.relfile and any(n.name == "build_module_ast" for n in g.calls())]
    for g in lam:
        es = every_iteration(g, lambda fn, n: n.name == "parse_file")
        chk(rep, "sources", g, "every file is parsed", any(ok for _, ok in es), "files can be left out", "files")


def eof(prog):
    return dict((k, int(v)) for k, v in prog.enums[T + "TokenType"]["c"])["Eof"]


# ---- tree errors ---------------------------------------------------------------------------------------------------------------------------

def each(prog, rep, q, watch, what, want, fixed=None, key=None, rule="tree-errors", cls=None, args=None, follow=None):
    f = one(prog, q)
    sc = Scenario(prog, fixed=fixed or {}, watch=watch, follow=follow)
    out = sc.run(f, args, this(cls) if cls else None)
    if not out:
        raise AnalysisBroken("no path through %s" % q)
    bad = [r for r in out if not want(sc, *r)]
    chk(rep, rule, f, what, not bad, "%s: a path does not do this" % what, key or q)
    return out


def tree(prog, rep):
    lv = levels(prog)
    pushed = lambda *names: lambda sc, v, ev, st: any(e[0] in names for e in ev)
    each(prog, rep, T + "Parser::error", ("push_back", "emplace_back"), "an error of the parser becomes an event", lambda sc, v, ev, st: any(
        e[0] in ("push_back", "emplace_back") and e[1] == "this.events_" and "make_error" in e[2][0] and "message" in e[2][0] for e in ev), cls="Parser",
        fixed={"make_error": lambda n, o, a, st: obj("make_error(message)")} )
    for v, name in ((False, "expect"),):
        each(prog, rep, T + "Parser::expect", ("error",), "a missing token is an error", lambda sc, v, ev, st: (sc.path(v, st) == "true") != any(e[0] == "error" for e in ev), {"accept": BOTH},
             cls="Parser")
    each(prog, rep, T + "Parser::error_recover", ("error",), "recovery reports the error", pushed("error"), {"at_any": BOTH}, cls="Parser")
    ev = [f for f in prog.fns.values() if f.name == "visit_error" and f.cfg is not None and "consume_events" in (f.full + f.q + (f.cls or ""))]
    chk(rep, "tree-errors", ev[0] if ev else None, "error events are consumed", ev and any(n.name == "error" for f in ev for n in f.calls()), "error events are dropped", "consume")
    c = one(prog, T + "consume_events")
    chk(rep, "tree-errors", c, "every event is consumed", any(ok for _, ok in every_iteration(c, lambda fn, n: n.name == "visit")), "events can be left out", "events")
    b = "SyntaxTreeBuilder"
    each(prog, rep, T + b + "::error", ("push_back", "emplace_back"), "an error event is stored in the tree", lambda sc, v, ev, st: any(
        e[0] in ("push_back", "emplace_back") and e[1] == "this.tree_.errors()" for e in ev), cls=b)
    marked = lambda sc, v, ev, st: any(isinstance(k, tuple) and len(k) == 2 and k[1] == "has_error_" and sc.path(x, st) == "true" for k, x in st.mem.items())
    open_node = {n: V("o", ty=T + "SyntaxNodeBuilder", path="node") for n in ("back", "emplace_back")}
    each(prog, rep, T + b + "::error", (), "the open node is marked as erroneous", marked, open_node, cls=b, key="mark")
    err = dict((k, int(v)) for k, v in prog.enums[T + "SyntaxType"]["c"])["Error"]
    each(prog, rep, T + b + "::start_node", (), "error nodes are marked as erroneous", marked, open_node, cls=b, key="mark-node", args=[integer(err, err, T + "SyntaxType")])
    g = [x for x in prog.fns.values() if x.q.replace(ANON, "") == T + "AstBuilder::emit_errors" and x.cfg is not None]
    if not g:
        raise AnalysisBroken("AstBuilder::emit_errors not found")
    out = every_iteration(g[0], lambda fn, n: n.name in ("report", "reportf"))
    chk(rep, "tree-errors", g[0], "every error of a tree is reported", any(ok for _, ok in out), "errors of the syntax tree can be left out", "emit")
    sc = Scenario(prog, watch=("report", "reportf"))
    for v, ev, st in sc.run(g[0]):
        for e in ev:
            chk(rep, "tree-errors", g[0], "errors of a tree are reported as errors", e[2][0] == str(lv["Error"]), "errors of the tree are reported with another severity", "emit-level")
    builds = [x for x in prog.fns.values() if x.q.replace(ANON, "") == T + "AstBuilder::build" and x.cfg is not None]
    for x in builds:
        sc = Scenario(prog, watch=("emit_errors",), follow=lambda t: False)
        for v, ev, st in sc.run(x):
            chk(rep, "tree-errors", x, "building a tree reports its errors", any(e[0] == "emit_errors" for e in ev), "the errors of the tree are not reported", "build:" + x.ret)
    m = one(prog, T + "build_module_ast")
    chk(rep, "tree-errors", m, "every file is built", any(ok for _, ok in every_iteration(m, lambda fn, n: n.name == "build_file_ast")), "files can be left out", "module-files")


def nodes(prog, rep):
    err = dict((k, int(v)) for k, v in prog.enums[T + "SyntaxType"]["c"])["Error"]
    M = Must(prog, keep=lambda e: e[0].split("::")[-1] in ("error", "error_recover") and "Parser" in e[0] or e[0] in ("error", "error_recover"))
    sites = 0
    for f in prog.fns.values():
        if f.cfg is None or not f.relfile.startswith("src/compiler/syntax/"):
            continue
        for n in f.calls():
            if n.name != "complete" or not n.q.endswith("Marker::complete"):
                continue
            a = n.args[0] if n.args else None
            val = a.d.get("v") if a is not None else None
            if val is None or int(val) != err:
                continue
            sites += 1
            before = [e for e in M.at(f, n) if "error" in e[0]]
            ok = bool(before) or after_all(M, f, n, lambda e: "error" in e[0])
            chk(rep, "error-nodes", n, "an error node comes with an error message", ok, "an error node is completed in %s without reporting an error" % f.name, "%s" % f.name)
    if sites < 5:
        raise AnalysisBroken("only %d error nodes found" % sites)


# ---- literals ------------------------------------------------------------------------------------------------------------------------------

LITERALS = ("parse_symbol_name", "parse_integer_value", "parse_float_value", "parse_tuple_field", "parse_string_literal", "parse_ascii_hex", "parse_unicode_hex", "parse_integer_impl")


def presence(o):
    p = getattr(o, "path", None)
    return yes(True) if p == "FOUND" else yes(False) if p == "MISSING" else None


def literals(prog, rep):
    fs = [f for f in prog.fns.values() if f.cfg is not None and f.relfile.endswith("grammar/literals.cpp") and any("FunctionRef" in (q.type or "") for q in f.params)]
    names = {f.name for f in fs}
    for n in LITERALS[:5]:
        if n not in names:
            raise AnalysisBroken("%s not found" % n)
    for f in fs:
        fixed = {n: [obj("FOUND"), obj("MISSING")] for n in names if n != f.name}
        fixed["operator bool"] = fixed["has_value"] = lambda n, o, av, st: presence(o)
        sc = Scenario(prog, fixed=fixed, watch=lambda n, q: n.name in names or n.name in ("operator()",), follow=lambda t, f=f: t is f)
        bad = n = 0
        for v, ev, st in sc.run(f):
            n += 1
            p = sc.path(v, st)
            if p in ("std::nullopt", "false") or v.kind == "o" and p.startswith("std::optional") and p.endswith("{}"):
                sunk = any(e[0] == "operator()" and ("sink" in e[1] or e[1].startswith("?") or e[1] in [q.name for q in f.params]) for e in ev)
                inner = any(e[0] in names and e[3] == "MISSING" for e in ev)
                bad += not (sunk or inner)
        chk(rep, "literals", f, "a failing parser reports why", not bad, "%s can fail without reporting an error" % f.name, f.name)


# ---- ast builder ---------------------------------------------------------------------------------------------------------------------------

def engaged(p):
    if p in ("node", "kind") or p.startswith(("std::tuple", "std::make_tuple", "this.make_node")):
        return yes(True)
    if p in ("null", "nullptr", "std::nullopt"):
        return yes(False)
    return None


def ast(prog, rep):
    lv = levels(prog)
    parsers = ("parse_symbol_name", "parse_integer_value", "parse_float_value", "parse_tuple_field", "parse_string_literal")
    fs = [f for f in prog.fns.values() if f.cfg is not None and f.cls and f.cls.endswith("AstBuilder") and f.name.startswith(("build_", "gather_"))]
    if len(fs) < 25:
        raise AnalysisBroken("only %d functions of the ast builder found" % len(fs))
    given = {"read": lambda n, o, a, st: V("o", ty=n.type, path="node"), "read_checked": lambda n, o, a, st: V("o", ty=n.type, path="node"),
             "type": lambda n, o, a, st: V("o", ty=n.type, path="kind") if "optional" in (n.type or "") else None,
             "operator bool": lambda n, o, a, st: engaged(sc.path(o, st)),
             "has_value": lambda n, o, a, st: engaged(sc.path(o, st))}
    done = 0
    for f in fs:
        sc = Scenario(prog, fixed=given, watch=lambda n, q: n.name in ("report", "reportf", "error_expr", "error_stmt", "unexpected") + parsers or n.name.startswith("build_"),
                      follow=lambda t, f=f: t is f or t.name == "operator()" and t.relfile == f.relfile and f.line <= t.line <= f.endline, maxpaths=3000)
        try:
            out = sc.run(f)
        except Budget:
            rep.note("%s has too many paths and was not analysed" % f.name)
            continue
        done += 1
        for v, ev, st in out:
            for e in ev:
                if e[0] in ("report", "reportf"):
                    chk(rep, "ast-errors", f, "problems are reported as errors", e[2][:1] == (str(lv["Error"]),), "a problem is reported with another severity", "%s:level" % f.name)
            if any(e[0] in ("error_expr", "error_stmt") for e in ev):
                ok = any(e[0] in ("report", "reportf") + parsers or e[0].startswith("build_") for e in ev)
                chk(rep, "ast-errors", f, "giving up is reported", ok, "%s gives up on a syntax node without reporting an error" % f.name, "%s:give-up" % f.name)
    chk(rep, "ast-errors", None, "most functions of the ast builder were analysed", done >= len(fs) - 4, "only %d of %d functions could be analysed" % (done, len(fs)), "coverage")
    # an empty result of a checked access is only an error node, never an unchecked default
    for name in ("visit_error_expr", "visit_error_stmt"):
        for f in [g for g in prog.fns.values() if g.name == name and g.cfg is not None and g.relfile.startswith("src/compiler/ir_gen")]:
            sc = Scenario(prog)
            out = sc.run(f)
            chk(rep, "ir-errors", f, "erroneous nodes are never translated", not out, "an erroneous node is translated", f.cls.split("::")[-1] + ":" + name)
    # the error sink of the literal parsers
    s = [g for g in prog.fns.values() if g.cfg is not None and g.relfile.endswith("build_ast.cpp") and g.name == "operator()" and any(n.name == "report" for n in g.calls()) and len(g.params) == 1]
    ok = [g for g in s if all(any(e[0] == "report" and e[2][:1] == (str(lv["Error"]),) for e in ev) for _, ev, _ in Scenario(prog, watch=("report",)).run(g))]
    chk(rep, "ast-errors", s[0] if s else None, "the error sink reports errors", len(ok) >= 1 and len(ok) == len(s), "the error sink does not report an error", "sink")
    # sinks are used by every literal parser call
    for f in fs:
        for n in f.calls():
            if n.name in parsers:
                last = n.args[-1] if n.args else None
                chk(rep, "ast-errors", n, "literal parsers report to the diagnostics", last is not None and any(x.name == "diag_sink" for x in last.walk() if x.name),
                          "%s is called without the diagnostics as its error sink" % n.name, "%s:%s:sink" % (f.name, n.name))


# ---- diagnostics ---------------------------------------------------------------------------------------------------------------------------

def count(prog, rep):
    lv = levels(prog)
    f = one(prog, T + "Diagnostics::report")
    for name, v in lv.items():
        sc = Scenario(prog, watch=("emplace_back", "push_back"))
        t = this("Diagnostics")
        ps = [integer(v, v, T + "Diagnostics::Level")] + [obj(q.name) for q in f.params[1:]]
        for r, ev, st in sc.run(f, ps, t):
            chk(rep, "count", f, "a message is stored", any(e[1] == "this.messages_" for e in ev), "a message can be lost", "stored:" + name)
            touched = {k[1] for k in st.mem if isinstance(k, tuple) and len(k) == 2 and k[0] == t.id}
            if name == "Error":
                chk(rep, "count", f, "an error is counted", "errors_" in touched, "an error is not counted", "counted")
    sc = Scenario(prog)
    g = one(prog, T + "Diagnostics::has_errors")
    for k, want in ((0, "false"), (1, "true"), (7, "true")):
        t = this("Diagnostics")
        from ..absint import State
        st = State()
        st.mem[(t.id, "errors_")] = integer(k, k, "size_t")
        for r, ev, s2 in sc.run(g, None, t, st):
            chk(rep, "count", g, "has_errors tells whether errors were counted", sc.path(r, s2) == want, "has_errors answers %s for %d errors" % (sc.path(r, s2), k), "has:%d" % k)
    for q in ("vreport", "reportf"):
        for h in fns(prog, T + "Diagnostics::" + q):
            sc = Scenario(prog, watch=("report", "vreport"), follow=lambda t: False)
            for r, ev, st in sc.run(h, [integer(1, 1, T + "Diagnostics::Level")] + [obj(q.name) for q in h.params[1:]]):
                chk(rep, "count", h, "formatted reports are reports", any(e[0] in ("report", "vreport") and e[2][:1] == ("1",) for e in ev),
                          "%s does not forward its message with its severity" % q, q)
    # nobody else touches the counter
    for fn in prog.fns.values():
        if fn.cfg is None or fn.cls == T + "Diagnostics":
            continue
        for n in fn.nodes:
            if n and n.k == "member" and n.name == "errors_" and "Diagnostics" in (n.d.get("q") or ""):
                chk(rep, "count", n, "only reports touch the error counter", False, "the error counter is accessed in %s" % fn.name, "other:" + fn.name)


# ---- code generation -----------------------------------------------------------------------------------------------------------------------

def ir(prog, rep):
    lv = levels(prog)
    f = one(prog, T + "ir::FunctionIRGen::undefined_variable")
    sc = Scenario(prog, watch=("report", "reportf"))
    for v, ev, st in sc.run(f):
        chk(rep, "ir-errors", f, "undefined variables are errors", any(e[2][:1] == (str(lv["Error"]),) for e in ev), "an undefined variable is not an error", "undefined")
    calls = [(g, n) for g, n in prog.callers().get(f.usr, [])]
    chk(rep, "ir-errors", f, "undefined variables are detected", len(calls) >= 1, "undefined variables are never detected", "detected")
    lf = [h for h in prog.fns.values() if h.cfg is not None and h.q == T + "ir::ModuleIRGen::compile_module"]
    return lf, calls


# ---- C interface ---------------------------------------------------------------------------------------------------------------------------

def messages(prog, rep):
    api = lambda t: t.relfile.startswith("src/api")
    f = one(prog, "tiro_compiler_run")
    res = V("o", ty=T + "CompilerResult", path="R")
    sc = Scenario(prog, fixed={T + "Compiler::run": res, "operator->": lambda n, o, a, st: res if sc.path(o, st).endswith(".result") else None},
                  watch=lambda n, q: n.name in ("report", "report_error", "messages", "report_caught_exception") or q == T + "Compiler::run" or n.name == "operator=" and "result" in sc.path2(n),
                  follow=lambda t: api(t) and t.name != "report")
    sc.path2 = lambda n: "".join(x.name or "" for x in n.walk())
    ran = 0
    for v, ev, st in sc.run(f):
        names = [e[0] for e in ev]
        if "run" not in names:
            continue
        ran += 1
        ok = known(sc, st, res, "success")
        failed = any(n.startswith("report_error") or n == "report_caught_exception" for n in names)
        chk(rep, "messages", f, "a failed compilation is an error", failed or ok is True, "a compilation that failed is not reported as an error", "failure")
        chk(rep, "messages", f, "the result is kept", any(e[0] == "operator=" and e[1].endswith("result") and e[2] == ("R",) for e in ev), "the result is not kept", "result")
        chk(rep, "messages", f, "the messages are read after the compilation", "messages" in names and names.index("messages") > names.index("run"), "messages are not read after the compilation", "messages")
    chk(rep, "messages", f, "the compiler runs", ran > 0, "the compiler never runs", "run")
    lam = [g for g in prog.fns.values() if g.cfg is not None and g.relfile == f.relfile and any(n.name == "messages" for n in g.calls())]
    chk(rep, "messages", f, "every message is delivered", any(ok for g in lam for _, ok in every_iteration(g, lambda fn, n: n.name == "report")), "messages can be left out", "every")
    r = [g for g in prog.fns.values() if g.cfg is not None and g.relfile == f.relfile and g.name == "report" and g.name != "operator()"]
    if not r:
        raise AnalysisBroken("report not found")
    sev = {k: int(v) for e in prog.enums.values() for k, v in e["c"] if k.startswith("TIRO_SEVERITY_")}
    lv = levels(prog)
    for name, want in (("Error", "TIRO_SEVERITY_ERROR"), ("Warning", "TIRO_SEVERITY_WARNING")):
        inner = [g for g in prog.fns.values() if g.cfg is not None and g.relfile == f.relfile and g.name == "operator()" and len(g.params) == 1 and "Level" in (g.params[0].type or "")]
        for g in inner:
            sc = Scenario(prog)
            for v, ev, st in sc.run(g, [integer(lv[name], lv[name], T + "Diagnostics::Level")]):
                chk(rep, "messages", g, "%s keeps its severity" % name, sc.path(v, st) == str(sev[want]), "%s is delivered with severity %s" % (name, sc.path(v, st)), "severity:" + name)
    sc = Scenario(prog, watch=lambda n, q: "message_callback" in "".join(x.name or "" for x in n.walk()) , follow=lambda t: False)
    h = one(prog, "tiro_compiler_take_module")
    sc = Scenario(prog, fixed={"tiro_compiler_has_module": BOTH}, watch=("report_error", "make_unique", "tiro_compiler_has_module", "release"), follow=api)
    took = 0
    for v, ev, st in sc.run(h):
        if any(e[0] == "report_error" for e in ev):
            continue
        took += 1
        chk(rep, "messages", h, "a module is handed out only if there is one", any(e[0] == "tiro_compiler_has_module" and e[3] == "true" for e in ev), "a module is handed out although there is none", "take")
    k = one(prog, "tiro_compiler_has_module")
    sc = Scenario(prog, follow=api)
    for v, ev, st in sc.run(k):
        p = sc.path(v, st)
        chk(rep, "messages", k, "there is a module only if the result has one", p == "false" or "result.module" in p.replace("->", "."), "has_module answers %s" % p, "has")
