"""A typestate analysis of every value of type Fallible in the runtime: untested, known good, known failed, passed on. Rules: consumed: the result of every
operation that can fail is stored, returned, handed to another function or asserted to be good; it is never discarded and its value is not taken without a
test. tested: the value of a stored result is taken only where it is known to be good, and its error only where it is known to have failed. passed-on: on every path
a stored result is tested or handed on, and the error of a failed one is used. separate: code that runs after success does not run after a failure that was
passed on. final: after raising a panic a native function does nothing else with its frame. raised: an exception that was created is used. must: results are asserted to be good only in
functions that cannot report errors to the script, except for the insertion into a table that was just made large enough."""
from ..facts import AnalysisBroken
from ..flow import leaf
from ..paths import position
from ..util import chk, rules

FAIL = "tiro::vm::Fallible<"
CLIMB = ("cast", "paren", "mte", "bind", "temp", "tmp", "cond")


def by_value(t):
    return bool(t) and t.startswith(FAIL) and not t.rstrip().endswith(("&", "*"))


def consumer(n):
    c, q = n, n.parent
    while q is not None and (q.k in CLIMB and not (q.k == "cond" and q.children and q.children[0] is c) or
                             q.k == "call" and (q.d.get("ck") == "ctor" and FAIL in (q.type or "") or q.q in ("std::move", "std::forward"))):
        if q.k == "cast" and (q.type or "") == "void":
            return c, None
        c, q = q, q.parent
    return c, q


def base(n):
    """the variable behind moves and casts"""
    while n is not None:
        if n.k == "ref":
            return n.d.get("d", n.d.get("id"))
        if n.k in CLIMB and n.children:
            n = n.children[0]
        elif n.k == "call" and n.q in ("std::move", "std::forward") and n.args:
            n = n.args[0]
        else:
            return None
    return None


def channel(f):
    t = (f.d.get("rt") or f.d.get("ret") or "")
    return FAIL in t or any("FrameContext" in (p.type or "") for p in f.params) or "BytecodeInterpreter::" in f.q


def run(prog, rep):
    rules(rep, __doc__)
    total = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.usr):
        if f.cfg is None or not f.relfile.startswith(("src/vm", "src/api")) or f.relfile == "src/vm/objects/exception.hpp" and (f.cls or "").startswith(FAIL):
            continue
        for n in f.calls():
            if n.d.get("ck") != "ctor" and n.q not in ("std::move", "std::forward") and by_value(n.type):
                total += 1
                c, q = consumer(n)
                key = "%s|%s" % (f.q, n.q)
                chk(rep, "consumed", f, q is not None, "the result of %s is discarded (%s)" % (n.name, n.loc), key)
                if q is not None and q.k == "call" and q.obj is c:
                    ok = q.name == "must"
                    chk(rep, "consumed", f, ok, "%s() of the result of %s is used without a test (%s)" % (q.name, n.name, n.loc), key)
                    if q.name == "must" and channel(f):
                        chk(rep, "must", f, n.name in ("set", "insert") and ("HashTable" in n.q or "Set::" in n.q), "a failure of %s is an error of the host although it could be reported to the script" % n.name, key)
            if n.d.get("ck") != "ctor" and (n.type or "") == "tiro::vm::Exception":
                c, q = consumer(n)
                chk(rep, "raised", f, q is not None, "the exception created by %s is dropped (%s)" % (n.name, n.loc), "%s|%s" % (f.q, n.q))
        final(prog, rep, f)
        variables(prog, rep, f)
    if total < 60:
        raise AnalysisBroken("only %d fallible operations found" % total)


def after(f, n):
    """nodes that are evaluated after n on some path"""
    cfg = f.cfg
    p = position(f, n)
    if p is None:
        return
    for e in cfg.blocks[p[0]].elems[p[1] + 1:]:
        yield e
    seen, st = set(), [x for x in cfg.blocks[p[0]].succ if x >= 0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        yield from cfg.blocks[b].elems
        st += [x for x in cfg.blocks[b].succ if x >= 0]


def final(prog, rep, f):
    for n in f.calls():
        if n.name != "panic" or "FrameContext::" not in n.q or f.q.startswith(n.q.rsplit("::", 1)[0]):
            continue
        who = n.obj.text() if n.obj is not None else ""
        more = [f.nodes[e] for e in after(f, n) if not isinstance(e, list) and f.nodes[e] is not None and f.nodes[e].k == "call"]
        more = [m for m in more if m.obj is not None and m.obj.text() == who and "FrameContext" in m.q and m is not n]
        chk(rep, "final", f, not more, "after the panic the function continues with %s" % (more[0].text(3) if more else ""), "%s|%s" % (f.q, more[0].name if more else "ok"))


def unwrap(c, neg):
    while c is not None:
        if c.k == "un" and c.op == "!":
            neg, c = not neg, c.child(0)
        elif c.k in ("cast", "paren"):
            c = c.child(0)
        elif c.k == "call" and c.name == "__builtin_expect":
            c = c.args[0]
        elif c.k == "bin" and c.op in ("==", "!=") and c.child(1) is not None and c.child(1).text() in ("true", "false", "0", "1"):
            neg = neg != ((c.op == "==") == (c.child(1).text() in ("false", "0")))
            c = c.child(0)
        else:
            break
    return c, neg


def test_of(c, neg, aliases):
    """(variable, True if the condition being true means failure)"""
    c, neg = unwrap(c, neg)
    if c is None:
        return None, None
    if c.k == "ref" and c.d.get("d") in aliases:
        v, bad = aliases[c.d["d"]]
        return v, bad != neg
    if c.k == "call" and c.obj is not None and FAIL in (c.obj.type or "") and c.name in ("has_exception", "has_value"):
        return base(c.obj), (c.name == "has_exception") != neg
    return None, None


def variables(prog, rep, f):
    vs = {d.id: d for d in f.decls if (d.type or "").replace("const ", "").startswith(FAIL) and d.owner in (None, f.usr)}
    if not vs:
        return
    used_in_lambda = set()
    for _, g in f.lambdas():
        for n in g.walk():
            if n.k == "ref" and FAIL in (n.type or ""):
                used_in_lambda.add(n.name or n.d.get("n"))
    params = {d.id for d in f.params}
    aliases = {}
    for n in f.walk():
        if n.k == "decl":
            for d, i in n.d.get("vars", ()):
                if i is not None and i >= 0 and f.nodes[i] is not None and (f.decls[d].type or "").replace("const ", "") == "bool":
                    v, bad = test_of(f.nodes[i], False, {})
                    if v is not None:
                        aliases[d] = (v, bad)
    for v, d in vs.items():
        if d.name in used_in_lambda:
            continue
        typestate(rep, f, v, d, v in params, aliases)


def typestate(rep, f, v, d, param, aliases):
    cfg = f.cfg
    IN = {cfg.entry: frozenset("U" if param else "-")}
    work = [cfg.entry]
    found = {}

    def flow(b, st, report=False):
        blk = cfg.blocks[b]
        for e in blk.elems:
            if isinstance(e, list) or f.nodes[e] is None:
                continue
            n = f.nodes[e]
            if n.k == "decl" and any(x == v for x, _ in n.d.get("vars", ())):
                if report and "F" in st:
                    found.setdefault("passed-on", (n, "the error of %s is dropped" % d.name))
                st = frozenset("U")
                continue
            if report and "H" in st and st & set("GT") and n.k == "call" and not quiet(n):
                found.setdefault("separate", (n, "%s runs after success and after a failure of %s" % (n.text(3), d.name)))
            if n.k == "ref" and n.d.get("d") == v:
                c, q = n, n.parent
                while q is not None and (q.k in CLIMB[:-1] or q.k == "member" or q.k == "call" and (q.q in ("std::move", "std::forward") or q.d.get("ck") == "ctor" and FAIL in (q.type or ""))):
                    c, q = q, q.parent
                if q is not None and q.k == "call" and (q.obj is not None and base(q.obj) == v):
                    m = q.name
                    if m in ("has_exception", "has_value"):
                        continue
                    if m == "value":
                        if report and st & set("UFH"):
                            found.setdefault("tested:value", (n, "the value of %s is taken where it may have failed" % d.name))
                        continue
                    if m == "exception":
                        if report and st & set("UG"):
                            found.setdefault("tested:exception", (n, "the error of %s is taken where it may not have failed" % d.name))
                        st = frozenset("H" if x == "F" else x for x in st)
                        continue
                    if m == "must":
                        st = frozenset("G")
                        continue
                if dropped(c, q) or n.d.get("mac", "").startswith("TIRO_DEBUG_ASSERT"):
                    continue
                st = frozenset("T" if x in "UFGT" else x for x in st)
        return st

    while work:
        b = work.pop()
        blk = cfg.blocks[b]
        st = flow(b, IN[b])
        c = f.nodes[blk.cond] if blk.cond is not None and len(blk.succ) == 2 else None
        c, neg = leaf(f, blk) if c is not None else (None, False)
        w, bad = test_of(c, neg, aliases) if c is not None else (None, None)
        if c is not None and c.d.get("mac", "").startswith("TIRO_DEBUG_ASSERT"):
            w = None
        for i, s in enumerate(blk.succ):
            if s < 0 or blk.noreturn:
                continue
            out = st
            if w == v:
                failed = bad == (i == 0)
                out = frozenset(x for x in (("F" if failed else "G") if x == "U" else x for x in st)
                                if not (failed and x in "G") and not (not failed and x in "FH"))
            new = IN.get(s, frozenset()) | out
            if new != IN.get(s):
                IN[s] = new
                work.append(s)
    for b in IN:
        flow(b, IN[b], True)
    end = IN.get(cfg.exit, frozenset())
    if "U" in end:
        found.setdefault("passed-on:untested", (f, "%s is not tested on every path" % d.name))
    if "F" in end:
        found.setdefault("passed-on", (f, "the error of %s is dropped" % d.name))
    name = d.name.rstrip("0123456789_") or d.name
    for rule in ("tested", "passed-on", "separate"):
        hits = [(k, x) for k, x in found.items() if k.split(":")[0] == rule]
        for k, (n, msg) in hits:
            chk(rep, rule, f, False, "%s (%s)" % (msg, n.loc), "%s|%s" % (f.q, name))
        if not hits:
            chk(rep, rule, f, True, "", "%s|%s" % (f.q, name))


def dropped(c, q):
    return q is None or c.k == "cast" and (c.type or "") == "void" or q.k == "block"


def quiet(n):
    return n.name in ("has_exception", "has_value", "exception", "move", "forward") or n.d.get("ck") in ("ctor", "dtor") or n.name.startswith("operator")
