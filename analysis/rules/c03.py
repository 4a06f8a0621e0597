"""C03: rule `before-release`: wherever memory of a heap chunk is given back, the finalizers of the chunk were invoked before on every path (chunks
that were created in the same function are exempt). `shutdown`: the destructor of the heap gives back the first chunk only after the finalizers of
all pages and all large objects ran. `before-reuse`: a page sweep invokes the finalizers before it changes a block or inserts it into the free list.
`dead-only`: finalizers run for every unmarked registered object and for no marked one. `once`: the registration is dropped with the invocation.
`registration`: every object whose layout has a finalizer is registered at its creation, both for pages and for large objects. `dispatch`: the
registered function is called with the payload of the object."""
import re
from ..facts import AnalysisBroken
from ..guards import ctx_of, norm, Engine
from ..must import Must, May
from ..flow import entry_state, after_all, conds
from ..paths import loop_bodies, position, origin
from .c16 import lam_init

VM = "tiro::vm::"
FIN = ("invoke_finalizers", "invoke_finalizer")


def is_fresh(prog, f, arg):
    """the chunk was created by this function (or by the function around this lambda)"""
    o = origin(f, arg)
    for x in (arg.walk() if arg is not None else ()):
        if x.k == "ref":
            i = lam_init(prog, f, x)
            if i is not None and any(y.k == "call" and y.name == "allocate" for y in i.walk()):
                return True
    return o is not None and o.k == "call" and o.name == "allocate"


def run(prog, rep):
    for r, t in (("before-release", "finalizers run before chunk memory is given back"), ("shutdown", "all finalizers run before the first chunk is released"),
                 ("before-reuse", "finalizers run before cells are recycled"), ("dead-only", "exactly the unmarked registered objects are finalized"),
                 ("once", "a registration is dropped when it is used"), ("registration", "objects with finalizer are registered"),
                 ("dispatch", "the finalizer of the type is called with the payload")):
        rep.rule(r, t)
    M = Must(prog, keep=lambda e: not str(e[0]).startswith(("ctor:", "__builtin", "std::")))
    A = May(prog, may=True)
    eng = Engine(prog)
    heap = [f for f in prog.in_dir("src/vm/heap/")]
    rel = {}

    def releases(f):
        """the function may give back chunk memory"""
        if f.usr not in rel:
            rel[f.usr] = False
            rel[f.usr] = any(c.q == VM + "Heap::free_raw" or any(releases(t) for t in prog.targets(c) if t.relfile.startswith("src/vm/heap/")) for c in f.calls())
        return rel[f.usr]

    # release sites: calls of functions that release the chunk they get as argument or object
    def need(f, c, arg, depth=0):
        p = M.canon(f, ctx_of(f).path(arg))
        if is_fresh(prog, f, arg):
            rep.ok("before-release", "%s: new chunk" % f.q)
            return
        fin = {norm(e[1]) for e in (M.at(f, c) or ()) if e[0] in FIN and isinstance(e[1], str)}
        if p is not None and norm(p) in fin:
            rep.ok("before-release", "%s: %s" % (f.q, p))
            return
        ids = [ctx_of(f).var_id(x.id) for x in f.params]
        if p in ids and depth < 5:
            k = ids.index(p)
            n = 0
            for g, cc in prog.callers().get(f.usr, ()):
                if len(cc.args) > k:
                    n += 1
                    need(g, cc, cc.args[k], depth + 1)
            rep.check(n > 0, "before-release", f.loc, "%s: callers" % f.q, "releases a chunk but is never called")
            return
        rep.bad("before-release", c.loc, "%s: %s" % (f.q, c.text()[:60]), "the memory of a chunk is given back without its finalizers having been invoked on every path")
    prim = {f.usr for f in heap if any(c.q == VM + "Heap::free_raw" for c in f.calls())}
    if not prim:
        raise AnalysisBroken("release of chunk memory not found")
    for f in heap:
        for c in f.calls():
            if any(t.usr in prim for t in prog.targets(c)):
                arg = c.args[0] if c.args else c.obj
                need(f, c, arg)
    rep.require("before-release", 4, "release sites")
    # shutdown
    d = [f for f in heap if f.cls == VM + "Heap" and f.name == "~Heap"]
    if not d:
        raise AnalysisBroken("destructor of the heap not found")
    want = []
    r = prog.records.get(VM + "Heap")
    for fd in (r.fields if r else ()):
        t = str(fd)
        if re.search(r"(set|vector|map|list)<.*(Page|LargeObject)\b", t):
            want.append(fd["n"] if isinstance(fd, dict) else fd[0])
    if len(want) < 2:
        raise AnalysisBroken("containers of the chunks not found in the heap: %s" % want)
    n = 0

    def shut(f, have, depth=0):
        nonlocal n
        for c in f.calls():
            ts = [t for t in prog.targets(c) if t.usr in prim or releases(t)]
            if not ts:
                continue
            st = have | entry_state(M, f, c)
            fin = {e[1] for e in st if e[0] in FIN}
            miss = [w for w in want if "this.%s[each]" % w not in fin]
            if miss and depth < 4 and not any(t.usr in prim for t in ts) and all(t.cls == VM + "Heap" or t.flag("lam") for t in ts):
                for t in ts:
                    shut(t, st, depth + 1)
                continue
            n += 1
            rep.check(not miss, "shutdown", c.loc, "%s: %s" % (f.q, c.text()[:60]), "memory is given back before the finalizers of all %s were invoked" % ", ".join(miss))
    shut(d[0], frozenset())
    rep.require("shutdown", 1, "releases in the destructor")
    # sweep of the heap
    hs = [f for f in heap if f.cls == VM + "Heap" and f.name == "sweep"]
    ps = [f for f in heap if f.cls == VM + "Page" and f.name == "sweep"]
    if not hs or not ps:
        raise AnalysisBroken("sweep functions not found")
    hs, ps = hs[0], ps[0]
    s = M.summary(hs)
    rep.check(any(e[0] == "sweep" and e[1] == "this.pages_[each]" for e in s), "dead-only", hs.loc, "Heap::sweep: pages", "not every page is swept, dead objects would not be finalized")
    sites = [(f, c) for f in heap for c in f.calls() if c.name == "invoke_finalizer" and "lobs_" in (M.canon(f, ctx_of(f).path(c.obj)) or "") or
             c.name == "invoke_finalizer" and f.name != "~Heap" and not (f.cls == VM + "Heap" and f.name == "~Heap")]
    seen = False
    for f, c in sites:
        p = M.canon(f, ctx_of(f).path(c.obj))
        reach = f is hs or any(g is hs for g, _ in prog.callers().get(f.usr, ()))
        if not reach:
            continue
        seen = True
        fs = {(x[0], norm(str(x[1]))) for x in (eng.guards(f).at(c) or ()) if x[0] in ("t", "f")}
        rep.check(any(x[0] == "f" and x[1].endswith("is_marked()") for x in fs), "dead-only", c.loc, "%s: large object" % f.q, "the finalizer of a large object is invoked although the object may be marked")
        if f is hs:
            bad = conds(eng, f, c, lambda x: x[0] == "f" and "is_marked()" in str(x[1]) or x[0] == "t" and "has_finalizer()" in str(x[1]))
            rep.check(not bad, "dead-only", c.loc, "%s: large object conditions" % f.q, "dead large objects are finalized only when %s" % bad)
    rep.check(seen, "dead-only", hs.loc, "Heap::sweep: large objects", "finalizers of dead large objects are not invoked")
    # marks of survivors are reset, otherwise they count as live (and traced) forever
    rs = [(f, c) for f in heap if f is hs or any(g is hs for g, _ in prog.callers().get(f.usr, ())) for c in f.calls()
          if c.name == "set_marked" and c.args and c.args[0].value == 0]
    ok = False
    for f, c in rs:
        bad = conds(eng, f, c, lambda x: x[0] == "t" and "is_marked()" in str(x[1]))
        ok = ok or not bad
    rep.check(ok, "dead-only", hs.loc, "Heap::sweep: marks", "the marks of surviving large objects are not reset")
    # page sweep
    n = 0
    for x in ps.walk():
        ev = M.own(ps, x)
        if ev is None:
            continue
        w = ev[0] in ("=", "&=", "|=") and "bitmap" in str(ev[1]) or ev[0] in ("insert_free", "insert_free_with_metadata") or x.k == "call" and x.name in (
            "clear", "set") and "bitmap" in str(ev[1])
        if w:
            n += 1
            at = M.at(ps, x) or ()
            rep.check(any(e[0] in FIN and e[1] == "this" for e in at), "before-reuse", x.loc, "Page::sweep: %s" % ev[0], "cells are changed before the finalizers of the page were invoked")
    if n < 2:
        raise AnalysisBroken("Page::sweep has an unknown form")
    # invocation sites
    fin = [(f, c) for f in heap for c in f.calls() if c.q == VM + "finalize"]
    if len(fin) < 2:
        raise AnalysisBroken("finalizer invocations not found")
    for f, c in fin:
        g = eng.guards(f)
        fs = {(x[0], norm(str(x[1]))) for x in (g.at(c) or ()) if x[0] in ("t", "f")}
        if f.cls == VM + "Page":
            p = M.canon(f, ctx_of(f).path(c.args[0])) or ""
            inl = any(position(f, c) and position(f, c)[0] in b for _, b, _ in loop_bodies(f))
            rep.check("finalizers_[each]" in p and inl, "dead-only", c.loc, "page: %s" % f.name, "finalizers are not invoked for every registered cell: %s" % p)
            rep.check(any(x[0] == "f" and "is_cell_marked" in x[1] for x in fs), "dead-only", c.loc, "page: %s: guard" % f.name, "a finalizer may be invoked for a marked object")
            bad = conds(eng, f, c, lambda x: x[0] == "f" and "is_cell_marked" in str(x[1]))
            rep.check(not bad, "dead-only", c.loc, "page: %s: conditions" % f.name, "unmarked objects are finalized only when %s" % bad)
            dropped = after_all(M, f, c, lambda e: e[0] in ("erase", "clear") and str(e[1]).endswith("finalizers_"))
            if not dropped:
                # dropped earlier in the same iteration, or all registrations at the end
                pb = position(f, c)
                dropped = any(e[0] in ("erase", "extract") and str(e[1]).endswith("finalizers_") for e in (M.at(f, c) or ()) if e not in entry_state(M, f, c))
            rep.check(dropped, "once", c.loc, "page: %s" % f.name, "the registration survives the invocation, the finalizer would run again")
            # only entries that were finalized are dropped
            for e in f.calls():
                if e.name in ("erase", "extract") and (ctx_of(f).path(e.obj) or "").endswith("finalizers_"):
                    fe = {(x[0], norm(str(x[1]))) for x in (g.at(e) or ()) if x[0] in ("t", "f")}
                    rep.check(any(x[0] == "f" and "is_cell_marked" in x[1] for x in fe), "once", e.loc, "page: %s: erase" % f.name, "the registration of a marked object is dropped, its finalizer would never run")
                if e.name == "clear" and (ctx_of(f).path(e.obj) or "").endswith("finalizers_"):
                    rep.bad("once", e.loc, "page: %s: clear" % f.name, "registrations of marked objects are dropped, their finalizers would never run")
        else:
            tr = [x for x in fs if x[0] == "t" and re.search(r"finalizer_?(\(\))?$", x[1])]
            rep.check(bool(tr), "once", c.loc, "large object: %s: guard" % f.name, "a finalizer is invoked without a registration")
            bad = conds(eng, f, c, lambda x: x[0] == "t" and re.search(r"finalizer_?(\(\))?$", norm(str(x[1]))))
            rep.check(not bad, "dead-only", c.loc, "large object: %s: conditions" % f.name, "finalized only when %s" % bad)
            def drop(e):
                return e[0] == "=" and re.search(r"finalizer_$", str(e[1])) is not None and e[2] in ("0", "false") or e[0] == "set_finalizer" and len(e) > 2 and e[2] in ("0", "false")
            dropped = after_all(M, f, c, drop) or any(drop(e) for e in (M.at(f, c) or ()))
            rep.check(dropped, "once", c.loc, "large object: %s" % f.name, "the registration survives the invocation, the finalizer would run again")
    rep.require("once", 3, "registrations")
    # registration
    n = 0
    for f in prog.fns.values():
        if f.q != VM + "Heap::create":
            continue
        has = "FinalizerPiece" in f.usr
        marks = [c for c in f.calls() if c.q == VM + "Heap::mark_finalizer"]
        if has:
            n += 1
            s = M.summary(f)
            evs = [e for e in s if e[0] in ("mark_finalizer", "set_finalizer", "insert")]
            rep.check(any(e[0] == "mark_finalizer" and e[1] == "this" for e in evs), "registration", f.loc, "Heap::create<finalizer>", "an object with finalizer is not registered on every path")
            for c in marks:
                a = " ".join(filter(None, (ctx_of(f).path(x) for x in c.args)))
                rep.ok("registration", a[:80])
        else:
            rep.check(not marks, "registration", f.loc, "Heap::create: %s" % f.usr[-60:], "an object without finalizer is registered")
    if not n:
        raise AnalysisBroken("no creation of objects with finalizer found")
    mk = [f for f in heap if f.q == VM + "Heap::mark_finalizer"]
    if not mk:
        raise AnalysisBroken("Heap::mark_finalizer not found")
    mk = mk[0]
    chk = dict(prog.enums[VM + "ChunkType"]["c"]) if VM + "ChunkType" in prog.enums else None
    if chk is None:
        raise AnalysisBroken("ChunkType not found")
    lobset = [c for c in mk.calls() if c.name == "set_finalizer" and c.args and c.args[0].value == 1]
    pagset = [c for c in mk.calls() if c.name == "mark_finalizer" and c.d.get("cls") == VM + "Page"]
    for cs, tag, w in ((lobset, "LargeObject", "large objects"), (pagset, "Page", "pages")):
        good = False
        for c in cs:
            cm = [x for x in (eng.guards(mk).at(c) or ()) if x[0] == "cmp" and x[1] == "=="]
            good = good or not cm or any(re.search(r"(^|::)%s$" % tag, str(y)) or str(y) == str(chk[tag]) for x in cm for y in x[2:])
        rep.check(good, "registration", mk.loc, "Heap::mark_finalizer: %s" % w, "finalizers of objects on %s are not registered" % w)
    for c in pagset:
        a = norm(ctx_of(mk).path(c.args[0])) or ""
        rep.check("cell_index(" in a, "registration", c.loc, "Heap::mark_finalizer: index", "registers %s" % a)
    pm = [f for f in heap if f.q == VM + "Page::mark_finalizer"][0]
    pid = ctx_of(pm).var_id(pm.params[0].id)
    rep.check(any(e[0] in ("insert", "emplace") and str(e[1]).endswith("finalizers_") and e[2] == pid for e in M.summary(pm)), "registration", pm.loc, "Page::mark_finalizer", "the cell is not entered into the table")
    sf = [f for f in heap if f.q == VM + "LargeObject::set_finalizer"][0]
    pid = ctx_of(sf).var_id(sf.params[0].id)
    rep.check(any(e[0] == "=" and str(e[1]).endswith("finalizer_") and e[2] == pid for e in M.summary(sf)), "registration", sf.loc, "LargeObject::set_finalizer", "the flag is not stored")
    # dispatch
    fv = [f for f in prog.fns.values() if f.q == VM + "finalize"]
    nf = [f for f in prog.fns.values() if f.q == VM + "NativeObject::finalize"]
    if not fv or not nf:
        raise AnalysisBroken("finalize functions not found")
    c = [c for c in fv[0].calls() if c.q == VM + "NativeObject::finalize"]
    rep.check(bool(c), "dispatch", fv[0].loc, "finalize(Value)", "does not call the finalizer of native objects")
    for x in c:
        bad = [e for e in conds(eng, fv[0], x, lambda y: y[0] == "cmp" and "type()" in str(y) and y[1] == "==" or y[0] == "t" and re.search(r"is<|has_finalizer|is\(", str(y[1])))]
        rep.check(not bad, "dispatch", x.loc, "finalize(Value): conditions", "only under %s" % bad)
    nf = nf[0]
    cs = [c for c in nf.calls() if not prog.targets(c) and c.fnexpr is not None and "finalizer" in (ctx_of(nf).path(c.fnexpr) or "")]
    rep.check(bool(cs), "dispatch", nf.loc, "NativeObject::finalize", "the finalizer of the native type is not called")
    for c in cs:
        a = [norm(ctx_of(nf).path(x)) or "" for x in c.args]
        rep.check(len(a) == 2 and re.search(r"buffer_begin\(\)$|data\(\)$", a[0]) and re.search(r"buffer_capacity\(\)$|size\(\)$", a[1]), "dispatch", c.loc, "NativeObject::finalize: arguments", "called with %s" % a)
        bad = conds(eng, nf, c, lambda x: x[0] in ("t", "nonnull") and "finalizer" in str(x[1]) or x[0] == "cmp" and x[1] == "!=" and "finalizer" in str(x))
        rep.check(not bad, "dispatch", c.loc, "NativeObject::finalize: conditions", "only called when %s" % bad)
