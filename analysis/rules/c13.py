"""C13: must-hold guard facts on every path (interprocedural condition analysis) at each point where the C API layer uses an argument.
Rules: `null-arg` (pointer and handle arguments are dereferenced or converted only where they are known to be non-null), `string-arg`
(string arguments are only read where valid_string holds), `callback-arg` (function pointer arguments are only called, or stored without
a test at the call, where they are known to be non-null), `type-checked` (the value of a checked cast is only taken where the cast is
known to have succeeded, unchecked casts only where the type was tested), `state-checked` (operations with a precondition on range or state
are only reached where that precondition was tested), `narrowed-arg` (a size argument is only narrowed below a tested bound) and
`result-last` (no error is reported after a result was written)."""
import re
from ..paths import origin
from ..guards import Engine, Facts, ctx_of, norm, strip_targs
from ..effects import in_assert
from ..facts import AnalysisBroken

VAR = r"[A-Za-z_][A-Za-z_0-9]*@\d+:\d+"
SIMPLE = re.compile(r"^(%s)((?:\.\*|\.\w+|\[[^\[\]]*\])*)$" % VAR)
UNWRAP = re.compile(r"^(?:[\w:]*::)?to_internal\((.*)\)$")


def run(prog, rep):
    rep.rule("null-arg", "pointer and handle arguments are non-null wherever they are used")
    rep.rule("string-arg", "string arguments are valid wherever they are read")
    rep.rule("callback-arg", "function pointer arguments are non-null wherever they are called or stored")
    rep.rule("type-checked", "results of checked casts are tested before use; unchecked casts follow a type test")
    rep.rule("state-checked", "range and state preconditions are tested before the operation")
    rep.rule("narrowed-arg", "size arguments are bounded before they are narrowed")
    rep.rule("result-last", "no error report is reachable after a result was written")
    eng = Engine(prog)
    api = [f for f in prog.fns.values() if f.relfile.startswith("src/api/") or f.flag("xc") and f.relfile.startswith("include/tiro/")]
    if len(api) < 200:
        raise AnalysisBroken("API layer not found")

    def outermost(f):
        o = f
        while o is not None and (o.flag("lam")) and o.outer is not None:
            o = o.outer
        return o

    # parameters by variable id of the outermost function
    params = {}
    for f in api:
        c = ctx_of(f)
        for i, pd in enumerate(f.params):
            params[(f.usr, c.var_id(pd.id))] = (f, i, pd)

    def short(f):
        o = outermost(f)
        return strip_targs(o.q)

    need = {}       # (usr, idx, suffix) -> origin description
    pending = []

    def require(f, n, path, what):
        """path (not normalised) must be truthy at n in f"""
        m = UNWRAP.match(path)
        alts = [path]
        if m:
            alts.append(m.group(1))
            path = m.group(1)
        m = SIMPLE.match(path)
        if not m:
            return
        root, suffix = m.group(1), m.group(2)
        owner = f
        hit = None
        while owner is not None:
            hit = params.get((owner.usr, root))
            if hit:
                break
            owner = owner.outer if owner.flag("lam") else None
        if not hit:
            return
        pf, idx, pd = hit
        facts = Facts(eng.guards(f).at(n))
        if any(facts.true(a) or facts.nonzero(a) for a in alts):
            rep.ok("null-arg", "%s: %s" % (short(f), root.split("@")[0] + norm(suffix)))
            return
        # array argument with paired length
        if pf.flag("xc") or pf.flag("lam"):
            rep.bad("null-arg", n.loc, "%s: %s" % (short(f), root.split("@")[0] + norm(suffix)),
                    "%s may be null where it is used by %s" % (root.split("@")[0] + norm(suffix), what))
        else:
            key = (pf.usr, idx, suffix)
            if key not in need:
                need[key] = "%s at %s" % (what, n.loc)
                pending.append(key)
            rep.ok("null-arg", "%s requires non-null %s" % (short(f), root.split("@")[0]))

    def ptr(t):
        return t.endswith("*") or t.endswith("*const")

    for f in api:
        c = ctx_of(f)
        for n in f.walk():
            if in_assert(n):
                continue
            b = None
            if n.k == "member" and n.d.get("arrow") and n.child(0) is not None and ptr(n.child(0).type):
                b = n.child(0)
            elif n.k == "un" and n.op == "*" and ptr(n.child(0).type):
                b = n.child(0)
            elif n.k == "index" and n.child(0) is not None and ptr(n.child(0).type):
                b = n.child(0)
            elif n.k == "call" and n.d.get("ck") == "method" and n.d.get("arrow") and n.obj is not None and ptr(n.obj.type):
                b = n.obj
            elif n.k == "call" and strip_targs(n.q).endswith(("to_internal", "to_internal_token")) and n.args and n.args[0] is not None \
                    and n.args[0].type in ("tiro_value *", "tiro_async_token *", "tiro_handle_t", "tiro_async_token_t"):
                b = n.args[0]
            if b is None or b.k == "this":
                continue
            if b.k == "call" and b.op == "->" and not b.obj.type.startswith("std::optional"):
                continue
            p = c.path(b)
            if p and b.k == "call" and b.op == "->" and p.endswith(".*"):
                p = p[:-2]
            if p:
                require(f, n, p, n.text()[:60])
    # requirements of helper functions at their call sites
    callers = prog.callers()
    done = 0
    while pending:
        key = pending.pop()
        usr, idx, suffix = key
        for cf, call in callers.get(usr, ()):
            if not cf.relfile.startswith(("src/api/", "include/tiro/")):
                continue
            a = call.args[idx] if idx < len(call.args) else None
            if a is None or a.k == "nullptr":
                continue
            p = ctx_of(cf).path(a)
            if p:
                require(cf, call, p + suffix, "%s (%s)" % (prog.fns[usr].name, need[key]))
        done += 1
    rep.require("null-arg", 200, "uses of pointer arguments")

    # strings
    for f in api:
        c = ctx_of(f)
        for n in f.calls():
            if in_assert(n) or not strip_targs(n.q).endswith("to_internal") or not n.args or n.args[0] is None:
                continue
            pt = (n.d.get("pt") or [""])[0]
            if "tiro_string" not in pt:
                continue
            p = c.path(n.args[0])
            m = SIMPLE.match(p or "")
            if not m:
                continue
            o = f
            hit = None
            while o is not None:
                hit = params.get((o.usr, m.group(1)))
                if hit:
                    break
                o = o.outer if o.flag("lam") else None
            if not hit or not (hit[0].flag("xc") or hit[0].flag("lam")):
                continue
            if "message" in short(f) and hit[0].flag("lam"):
                pass
            facts = Facts(eng.guards(f).at(n))
            good = facts.true("tiro::api::valid_string(%s)" % p) or facts.true(p + ".data") or facts.nonzero(p + ".data") \
                or facts.has_cmp("==", p + ".length", "0")
            rep.check(good, "string-arg", n.loc, "%s: %s" % (short(f), m.group(1).split("@")[0] + norm(m.group(2))),
                      "string argument is read without a preceding validity test")
    rep.require("string-arg", 10, "string arguments")

    # callbacks
    def is_fnptr(t):
        return "(*)" in t or re.match(r"^(const )?tiro_\w+_(function|callback|cleanup)_t$", t) is not None

    # indirect calls through members: name -> all guarded?
    member_calls = {}
    for f in api:
        c = ctx_of(f)
        for n in f.calls():
            if n.d.get("u") or n.fnexpr is None:
                continue
            e = n.fnexpr
            while e.k in ("cast",) or e.k == "un" and e.op == "*":
                e = e.child(0)
            p = c.path(e)
            if e.k == "member":
                facts = Facts(eng.guards(f).at(n))
                member_calls.setdefault(e.name, []).append((n, facts.true(p) if p else False))
            elif e.k == "ref":
                # a local copy of the member (possibly exchanged): tested itself, or the member was tested before the copy
                o = origin(f, e)
                for m in (o.walk() if o is not None and o is not e else ()):
                    if m.k == "member":
                        pm = c.path(m)
                        good = p and Facts(eng.guards(f).at(n)).true(p) or pm and Facts(eng.guards(f).at(o)).true(pm)
                        member_calls.setdefault(m.name, []).append((n, bool(good)))
    for f in api:
        if not (f.flag("xc") or f.flag("lam") or f.flag("ti") or f.name in ("make_native_function",)):
            continue
        c = ctx_of(f)
        roots = {}
        o = f
        while o is not None:
            if o.flag("xc") or o.relfile.startswith("src/api/") and o.flag("ti"):
                for i, pd in enumerate(o.params):
                    if is_fnptr(pd.type):
                        roots[ctx_of(o).var_id(pd.id)] = pd
            o = o.outer if o.flag("lam") else None
        if not roots:
            continue
        for n in f.walk():
            if n.k != "ref" or n.decl < 0 or in_assert(n):
                continue
            p = c.path(n)
            if p not in roots:
                continue
            par = n.parent
            while par is not None and par.k in ("cast",):
                par = par.parent
            use = None
            if par is None:
                use = None
            if par is not None and par.k == "call":
                args = [a.id for a in par.args if a is not None]
                own = n.id in args or any(x.id in args for x in [n.parent] if x is not None)
                use = "passed to %s" % (par.q or "?") if par.d.get("u") else ("argument" if own else "called")
                if not par.d.get("u") and own:
                    use = "argument"
                if par.q.endswith("entry_point"):
                    continue
                t = prog.fns.get(par.d.get("u"))
                if t is not None and t.relfile.startswith("src/api/") and t.flag("ti"):
                    continue   # checked inside
            elif par is not None and par.k == "bin" and par.op == "=" and par.child(1) is not None and par.child(1).id in (n.id, n.parent.id):
                use = "stored"
            elif par is not None and par.k == "init":
                use = "stored"
            elif par is None:
                # callee position of an indirect call
                for cn in f.calls():
                    if cn.fnexpr is not None and any(x.id == n.id for x in cn.fnexpr.walk()):
                        use = "called"
                        par = cn
                        break
            if use is None:
                continue
            facts = Facts(eng.guards(f).at(par if par is not None else n))
            nm = roots[p].name
            good = facts.true(p)
            if not good and use != "called":
                ms = member_calls.get(nm, []) + member_calls.get(nm.rstrip("_"), [])
                good = bool(ms) and all(g for _, g in ms)
            rep.check(good, "callback-arg", n.loc, "%s: %s %s" % (short(f), nm, use.split(" ")[0]),
                      "function pointer argument may be null where it is %s" % use)
    rep.require("callback-arg", 5, "function pointer arguments")

    # types and states
    lambda_ok = 0
    for f in api:
        c = ctx_of(f)
        g = eng.guards(f)
        for n in f.calls():
            if in_assert(n):
                continue
            nm = n.name
            cls = strip_targs(n.d.get("cls") or "")
            if nm == "handle" and cls.startswith(("tiro::vm::MaybeHandle", "tiro::vm::MaybeMutHandle", "tiro::vm::detail::MaybeHandleBase", "tiro::vm::detail")) and n.obj is not None:
                p = c.path(n.obj)
                facts = Facts(g.at(n))
                ok = p is not None and (facts.true(p) or facts.true(p + ".valid()"))
                rep.check(ok, "type-checked", n.loc, "%s: %s" % (short(f), n.obj.text()[:50]),
                          "the value of a checked cast is used although the cast may have failed")
            elif nm == "must_cast" and n.obj is not None:
                p = norm(c.path(n.obj))
                ta = (n.d.get("ta") or [""])[0]
                if p is None or "unchecked_get" in p:
                    continue
                facts = Facts(g.at(n))
                ok = facts.true(p + ".is<%s>()" % ta)
                rep.check(ok, "type-checked", n.loc, "%s: must_cast %s" % (short(f), n.obj.text()[:50]), "unchecked cast without a preceding type test")
    rep.require("type-checked", 30, "casts")

    def pobj(c, n):
        p = c.path(n.obj) if n.obj is not None else None
        return norm(p)

    for f in api:
        c = ctx_of(f)
        g = eng.guards(f)
        for n in f.calls():
            if in_assert(n) or n.obj is None:
                continue
            nm = n.name
            cls = strip_targs(n.d.get("cls") or "")
            if not cls.startswith("tiro::vm::"):
                continue
            o = pobj(c, n)
            if o is None:
                continue
            cond = None
            if nm in ("unchecked_get", "unchecked_set", "checked_get", "checked_set") and n.args:
                idx = c.path(n.args[0])
                F = Facts(g.at(n))
                ok = idx is not None and F.lt(idx, o + ".size()")
                if not ok and idx is not None:
                    # size known from the construction of the container
                    m = re.search(r"(?:Tuple|Array)::make\((?:.*?),([^,()]+(?:\(\))?)\)+$", o)
                    ok = bool(m) and F.lt(idx, m.group(1))
                cond = ("index < size()", ok)
            elif nm in ("arg", "local") and "FrameContext" in cls and n.args:
                idx = c.path(n.args[0])
                F = Facts(g.at(n))
                ok = idx is not None and F.lt(idx, "%s.%s_count()" % (o, nm))
                cond = ("index < %s_count()" % nm, ok)
            elif nm in ("unchecked_value", "unchecked_error") and cls.endswith("Result"):
                F = Facts(g.at(n))
                w = "is_success" if nm.endswith("value") else "is_error"
                other = "is_error" if nm.endswith("value") else "is_success"
                e = "Success" if nm.endswith("value") else "Error"
                ok = F.true("%s.%s()" % (o, w)) or F.false("%s.%s()" % (o, other)) or F.has_cmp("==", o + ".which()", enum_value(prog, "tiro::vm::Result::Which", e))
                cond = (w + "()", ok)
            elif nm in ("remove_last",) and cls.endswith("Array"):
                F = Facts(g.at(n))
                ok = F.nonzero(o + ".size()") or F.false(o + ".empty()")
                cond = ("size() > 0", ok)
            elif nm == "result" and cls.endswith("Coroutine"):
                F = Facts(g.at(n))
                ok = F.has_cmp("==", o + ".state()", enum_value(prog, "tiro::vm::CoroutineState", "Done"))
                cond = ("state() == Done", ok)
            elif nm == "start" and cls.endswith("Context") and n.args:
                co = norm(c.path(n.args[0]))
                F = Facts(g.at(n))
                ok = co is not None and F.has_cmp("==", co + ".state()", enum_value(prog, "tiro::vm::CoroutineState", "New"))
                cond = ("state() == New", ok)
            if cond:
                rep.check(cond[1], "state-checked", n.loc, "%s: %s" % (short(f), nm), "%s is reached without a test of %s" % (n.text()[:60], cond[0]))
        for n in f.calls():
            q = strip_targs(n.q)
            if q == "tiro::vm::NativeObject::make" and len(n.args) >= 3:
                F = Facts(g.at(n))
                d = norm(c.path(n.args[1]))
                sz = norm(c.path(n.args[2]))
                ok = d and any(x[0] == "t" and "is_pow2" in x[1] and d + ".alignment" in x[1] for x in F.f)
                ok2 = d and (F.upper(d + ".alignment") is not None or any(x[0] == "cmp" and x[1] in ("<", "<=") and x[2] == d + ".alignment" for x in F.f))
                rep.check(bool(ok), "state-checked", n.loc, "%s: alignment is a power of two" % short(f), "native object is created without a test that the alignment is a power of two")
                rep.check(bool(ok2), "state-checked", n.loc, "%s: alignment is bounded" % short(f), "native object is created without a test of the maximal alignment")
                rep.check(bool(sz) and F.nonzero(sz), "state-checked", n.loc, "%s: size > 0" % short(f), "native object is created without a test of its size")
            elif q == "tiro::vm::Context::make_coroutine" and len(n.args) >= 2:
                # arguments are null or a tuple
                p = norm(c.path(n.args[1]))
                m = re.match(r"^(.*)\.try_cast<tiro::vm::Tuple>\(\)$", p or "")
                if m:
                    kinds_ok = tuple_or_null(f, g, c, n, m.group(1))
                    rep.check(kinds_ok, "state-checked", n.loc, "%s: arguments" % short(f), "call arguments of a wrong type are not rejected before use")
            elif q.endswith("ResumableFrameContext::invoke") and len(n.args) >= 3:
                F = Facts(g.at(n))
                # find the try_cast<Tuple> the argument list is computed from
                base = None
                for l in [f] + [lf for _, lf in f.lambdas()]:
                    for x in l.calls():
                        if x.name == "try_cast" and (x.d.get("ta") or [""])[0] == "tiro::vm::Tuple" and x.obj is not None:
                            base = norm(ctx_of(l).path(x.obj))
                if base:
                    rep.check(tuple_or_null(f, g, c, n, base), "state-checked", n.loc, "%s: arguments" % short(f),
                              "call arguments of a wrong type are not rejected before use")
    rep.require("state-checked", 15, "operations with preconditions")

    # narrowing of size arguments
    for f in api:
        c = ctx_of(f)
        g = eng.guards(f)
        for n in f.walk():
            if n.k != "cast" or in_assert(n) or n.child(0) is None:
                continue
            to, fr = n.type, n.d.get("from") or n.child(0).type
            if to in ("unsigned int", "unsigned short", "unsigned char", "int") and fr in ("unsigned long", "long", "unsigned long long"):
                if n.child(0).value is not None:
                    continue
                p = c.path(n.child(0))
                m = SIMPLE.match(p or "")
                if not m:
                    continue
                F = Facts(g.at(n))
                ub = F.upper(p)
                lim = {"unsigned int": 2**32 - 1, "unsigned short": 65535, "unsigned char": 255, "int": 2**31 - 1}[to]
                rep.check(ub is not None and ub <= lim, "narrowed-arg", n.loc, "%s: %s" % (short(f), m.group(1).split("@")[0] + norm(m.group(2))),
                          "size is narrowed to %s without a tested bound" % to)
    rep.require("narrowed-arg", 3, "narrowed sizes")

    # results are written last
    for f in api:
        cfg = f.cfg
        if cfg is None:
            continue
        c = ctx_of(f)
        writes = []
        reports = []
        for b in cfg.blocks.values():
            for i, e in enumerate(b.elems):
                if isinstance(e, list):
                    continue
                n = f.nodes[e]
                if n.k == "call" and n.q.endswith("api::report_error"):
                    reports.append((b.id, i, n))
                w = None
                if n.k == "call" and n.name == "set" and n.obj is not None and "MutHandle" in (n.d.get("cls") or "") + n.obj.type:
                    p = c.path(n.obj)
                    if p and UNWRAP.match(p):
                        w = n
                elif n.k == "bin" and n.op == "=" and n.child(0).k == "un" and n.child(0).op == "*":
                    p = c.path(n.child(0).child(0))
                    if p and re.match("^" + VAR + "$", p):
                        w = n
                if w is not None:
                    writes.append((b.id, i, w))
        if not writes:
            continue
        for b, i, w in writes:
            seen = set()
            todo = []
            bad = None
            for rb, ri, r in reports:
                if rb == b and ri > i:
                    bad = r
            todo = [s for s in cfg.blocks[b].succ if s >= 0]
            while todo and bad is None:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for rb, ri, r in reports:
                    if rb == x:
                        bad = r
                todo += [s for s in cfg.blocks[x].succ if s >= 0]
            rep.check(bad is None, "result-last", w.loc, "%s: %s" % (short(f), w.text()[:40]),
                      "an error is reported%s although the result was already written" % (" at line %d" % bad.line if bad else ""))
    rep.require("result-last", 30, "result writes")


def enum_value(prog, t, name):
    e = prog.enums.get(t)
    if e:
        for c in e["c"]:
            if c[0] == name:
                return str(c[1])
    raise AnalysisBroken("enumerator %s::%s not found" % (t, name))


def tuple_or_null(f, g, c, n, base):
    """a wrong argument type is reported on every path: some branch tests that base is neither null nor a tuple, and the side on which
    both tests fail does not reach n"""
    cfg = f.cfg
    pos = None
    for b in cfg.blocks.values():
        if any(not isinstance(e, list) and e == n.id for e in b.elems):
            pos = b.id
    # states in which both tests are known to be false must not reach n
    hb = norm(base)
    found_null = found_tuple = False
    for b in cfg.blocks.values():
        if b.cond is None or len(b.succ) != 2:
            continue
        for idx, s in enumerate(b.succ):
            if s < 0:
                continue
            st = g.at_block_edge(b, idx)
            if st is None:
                continue
            F = Facts(st)
            isnull = [x for x in F.f if x[0] == "f" and x[1].startswith(hb) and x[1].endswith("is<tiro::vm::Null>()")]
            istup = [x for x in F.f if x[0] == "f" and x[1].startswith(hb) and x[1].endswith("is<tiro::vm::Tuple>()")]
            if isnull and istup:
                found_null = found_tuple = True
                # reachability of n from s
                seen = set()
                todo = [s]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    todo += [y for y in cfg.blocks[x].succ if y >= 0]
                if pos in seen:
                    return False
    return found_null and found_tuple
