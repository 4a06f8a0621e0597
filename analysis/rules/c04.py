"""C04: rule `request`: Heap::allocate is executed by an interval interpreter over a partition of all 64 bit request sizes: the number of cells that
is asked for covers the request for every size, and sizes that are not representable end in an error. `limit`: memory is requested from the host only
under the condition size <= limit - used. `charge`: the used counter grows by the requested size whenever memory was obtained, and is not changed on
a path that fails. `release`: it shrinks by the size that is given back to the host. `same-size`: a chunk is released with the size term it was
allocated with. `only-source`: no other code asks the host for chunk memory. `guarded-registration`: between the allocation and the registration of a
chunk a cleanup is armed. `configuration`: the limit of the settings is installed before the first allocation."""
import re
from ..absint import Interp, integer, obj, V
from ..arith import opaque, same_function
from ..facts import AnalysisBroken
from ..flow import after_all, conds
from ..guards import ctx_of, norm, Engine
from ..must import Must
from ..paths import position
from ..effects import Throws, in_assert

VM = "tiro::vm::"
CELL = 16
TOP = 2 ** 64 - 1
BIG = (2 ** 32 - 1) * CELL


def one(prog, q, what=None):
    fs = [f for f in prog.fns.values() if f.q == q and f.cfg is not None]
    if not fs:
        raise AnalysisBroken("%s not found" % (what or q))
    return fs[0]


def run(prog, rep):
    for r, t in (("request", "the cells that are requested cover the request"), ("limit", "memory is requested only within the limit"),
                 ("charge", "obtained memory is charged, refused memory is not"), ("release", "released memory is credited with its size"),
                 ("same-size", "allocation and release agree on the size"), ("only-source", "one place talks to the host allocator"),
                 ("guarded-registration", "a new chunk is released when its registration fails"), ("configuration", "the configured limit is installed first")):
        rep.rule(r, t)
    M = Must(prog, keep=lambda e: not str(e[0]).startswith(("ctor:", "__builtin", "std::")))
    eng = Engine(prog)
    requests(prog, rep)
    host(prog, rep, M, eng)
    sizes(prog, rep)
    stats(prog, rep, M)
    registration(prog, rep, M)
    config(prog, rep, M)


def requests(prog, rep):
    f = one(prog, VM + "Heap::allocate")
    wraps = []

    def hook(kind, fn, n, st, ok, *d):
        if kind == "wrap" and ok is not True and (fn.name == "ceil_div" or "stats_" not in n.text()) and fn.relfile.startswith("src/"):
            wraps.append((fn.q, n.text()[:60]))
    n = 0
    for lo, hi in ((1, CELL), (CELL + 1, 4096), (4097, BIG), (BIG + 1, 2 ** 36), (2 ** 36 + 1, TOP - 16), (TOP - 15, TOP)):
        cap = []

        def take(it, fn, nd, q, o, av, st):
            if nd.name in ("add_lob", "allocate_exact", "allocate_chunk") and av:
                cap.append((nd, av[0], st))
                return [(obj("mem@" + nd.name, nd.type), st)]
            if nd.name in ("collect", "add_page"):
                return [(V("v"), st)]
        it = Interp(prog, hook=hook, opaque=opaque, intercept=take)
        res = it.run(f, [integer(lo, hi, "unsigned long", "a")], obj("this"))
        cls = "%d..%d" % (lo, hi)
        if lo > BIG:
            ok = not cap and not res
            if cap and not ok:
                # an implementation with wider cell counts may serve the request
                ok = all(st.range(v)[0] * CELL >= hi for nd, v, st in cap)
            n += 1
            rep.check(ok, "request", f.loc, "request of %s" % cls, "a request that is not representable is served with %s cells" % sorted({st.range(v)[:2] for _, v, st in cap})[:2])
            continue
        if not cap:
            raise AnalysisBroken("requests of %s bytes reach no allocation" % cls)
        n += 1
        bad = None
        for nd, v, st in cap:
            a, b = st.range(v)[:2]
            if v.kind != "i":
                raise AnalysisBroken("the number of cells is not understood")
            if a * CELL >= hi:
                continue
            if lo != hi and v.sym:
                same = same_function(v.sym, "(((a + %d) - 1) / %d)" % (CELL, CELL), (lo, hi), None)
                if same:
                    continue
            bad = "%s: %s..%s cells (%s)" % (nd.name, a, b, v.sym)
        rep.check(bad is None, "request", f.loc, "request of %s" % cls, "fewer cells than needed: %s" % bad)
    for w in sorted(set(wraps)):
        rep.bad("request", f.loc, "%s: %s" % w, "the size computation can wrap around")


def sub_path(a, b):
    return ("(%s - %s)" % (a, b),)


def host(prog, rep, M, eng):
    fns = [f for f in prog.in_dir("src/vm/") if f.cfg is not None]
    get = [(f, c) for f in fns for c in f.calls() if c.name == "allocate_aligned" and (c.d.get("cls") or "").endswith("HeapAllocator")]
    put = [(f, c) for f in fns for c in f.calls() if c.name == "free_aligned" and (c.d.get("cls") or "").endswith("HeapAllocator")]
    if not get or not put:
        raise AnalysisBroken("calls of the host allocator not found")
    for f, c in get + put:
        # in the heap class (or a helper that only it calls)
        own = f.cls == VM + "Heap" or all(g.cls == VM + "Heap" for g, _ in prog.callers().get(f.usr, ())) and f.usr in prog.callers()
        rep.check(own, "only-source", c.loc, "%s: %s" % (f.q, c.name), "chunk memory is exchanged with the host outside of the accounting of the heap")
    for f in prog.in_dir("src/vm/heap/", "src/vm/objects/", "src/vm/object_support/"):
        for c in f.calls():
            if re.search(r"(^|::)(allocate_aligned|deallocate_aligned|aligned_alloc|malloc|calloc|realloc|free|posix_memalign)$", c.q or "") and c.d.get("cls") is None \
                    and not (c.d.get("cls") or "").endswith("HeapAllocator"):
                ok = f.relfile in ("src/vm/heap/memory.cpp", "src/vm/heap/allocator.cpp") or (f.cls or "").endswith("HeapAllocator")
                rep.check(ok, "only-source", c.loc, "%s: %s" % (f.q, c.name), "memory is obtained without accounting")
    for f, c in get:
        size = norm(ctx_of(f).path(c.args[0]))
        fs = eng.guards(f).at(c) or ()
        total = "this.stats_.total_bytes"
        limit = "this.max_size_"
        good = False
        for x in fs:
            if x[0] != "cmp":
                continue
            op, a, b = x[1], norm(str(x[2])), norm(str(x[3]))
            if op in (">=", ">"):
                op, a, b = {">=": "<=", ">": "<"}[op], b, a
            if op in ("<=", "<") and a == size and b == "(%s - %s)" % (limit, total):
                good = True
            if op in ("<=", "<") and a == total and b == "(%s - %s)" % (limit, size):
                # needs size <= limit
                good = any(y[0] == "cmp" and {norm(str(y[2])), norm(str(y[3]))} == {size, limit} for y in fs)
        rep.check(good, "limit", c.loc, "%s: limit" % f.q, "memory is obtained without the condition size <= limit - used on every path")
        bad = charges(prog, f, c, size, M, eng, rep)
    for f, c in put:
        size = norm(ctx_of(f).path(c.args[1])) if len(c.args) > 1 else None
        s = M.summary(f)
        good = [e for e in s if e[0] == "-=" and str(e[1]).endswith("stats_.total_bytes") and norm(str(e[2])) == size] or [
            e for e in s if e[0] == "=" and str(e[1]).endswith("stats_.total_bytes") and norm(str(e[2])) == "(%s - %s)" % (e[1], size)]
        rep.check(bool(good), "release", c.loc, "%s: credit" % f.q, "the counter is not reduced by the size that is released on every path")
        writes = [n for n in f.walk() if (M.own(f, n) or ("",))[0] in ("=", "-=", "+=", "++", "--") and str(M.own(f, n)[1]).endswith("total_bytes")]
        rep.check(len(writes) == 1, "release", c.loc, "%s: writes" % f.q, "the counter is changed %d times" % len(writes))
    # nobody else writes the counter
    for f in fns:
        for n in f.walk():
            e = M.own(f, n)
            if e is not None and e[0] in ("=", "-=", "+=", "++", "--") and str(e[1]).endswith("stats_.total_bytes"):
                ok = any(f is g for g, _ in get + put) or f.flag("lam") and any(f.outer is g for g, _ in get + put)
                rep.check(ok, "charge", n.loc, "%s: total_bytes" % f.q, "the counter is changed without an exchange of memory")


def charges(prog, f, c, size, M, eng, rep):
    def plus(e):
        return e[0] == "+=" and str(e[1]).endswith("stats_.total_bytes") and norm(str(e[2])) == size or \
            e[0] == "=" and str(e[1]).endswith("stats_.total_bytes") and norm(str(e[2])) in ("(%s + %s)" % (e[1], size), "(%s + %s)" % (size, e[1]))
    s = M.summary(f)
    rep.check(any(plus(e) for e in s), "charge", c.loc, "%s: success" % f.q, "obtained memory is not charged with the requested size on every path")
    pl = [n for n in f.walk() if M.own(f, n) is not None and plus(M.own(f, n))]
    other = [n for n in f.walk() if M.own(f, n) is not None and M.own(f, n)[0] in ("=", "+=", "-=", "++", "--") and str(M.own(f, n)[1]).endswith("stats_.total_bytes") and n not in pl]
    rep.check(len(pl) <= 1, "charge", c.loc, "%s: once" % f.q, "charged %d times" % len(pl))
    T = Throws(prog)
    # after the charge nothing fails, unless the charge is rolled back
    rolled = any((M.own(l, n) or ("",))[0] == "-=" and str(M.own(l, n)[1]).endswith("total_bytes") and "Failure" in str([d.type for d in f.decls])
                 for _, l in f.lambdas() for n in l.walk()) or any(M.own(f, n)[0] == "-=" for n in other)
    for n in pl:
        bad = [x for x in reachable(f, n) if fails(T, x)]
        rep.check(not bad or rolled, "charge", n.loc, "%s: failure" % f.q, "the charge remains when %s fails" % (bad[0].text()[:60] if bad else ""))
        # the result was tested
        res = [x for x in (eng.guards(f).at(n) or ()) if x[0] in ("t", "nonnull", "cmp") and "allocate_aligned(" in str(x)]
        rep.check(bool(res) or rolled, "charge", n.loc, "%s: refused" % f.q, "the request is charged although the host may have refused it")


def reachable(f, n):
    """elements that may be evaluated after n"""
    p = position(f, n)
    if p is None:
        return []
    cfg = f.cfg
    out = [f.nodes[e] for e in cfg.blocks[p[0]].elems[p[1] + 1:] if not isinstance(e, list)]
    seen, st = set(), [s for s in cfg.blocks[p[0]].succ if s >= 0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        out += [f.nodes[e] for e in cfg.blocks[b].elems if not isinstance(e, list)]
        st += [s for s in cfg.blocks[b].succ if s >= 0]
    return [x for x in out if x is not None]


def fails(T, n):
    if n.k not in ("call", "throw", "new") or in_assert(n):
        return False
    if n.k == "call" and n.d.get("nr"):
        return True
    if n.k == "call" and re.match(r"std::(tuple|pair|get|move|forward|make_tuple)\b", n.q or ""):
        return False
    return bool(T.site_throws(n))


def sizes(prog, rep):
    """the size terms of allocation and release"""
    cap = {}
    for cls in ("Page", "LargeObject"):
        al = [f for f in prog.fns.values() if f.q == VM + cls + "::allocate" and f.cfg is not None]
        de = [f for f in prog.fns.values() if f.q == VM + cls + "::destroy" and f.cfg is not None]
        if not al or not de:
            raise AnalysisBroken("%s: allocate or destroy not found" % cls)
        got = {}
        wraps = []
        for f, which in ((al[0], "allocate_raw"), (de[0], "free_raw")):
            r = got[which] = []

            def hook(kind, fn, n, st, ok, *d):
                if kind in ("wrap", "overflow") and ok is not True and fn.relfile.startswith("src/vm/heap"):
                    wraps.append((fn.q, n.text()[:60]))

            def take(it, fn, n, q, o, av, st):
                if n.name == which:
                    k = 0 if which == "allocate_raw" else 1
                    r.append(((av[k], norm(ctx_of(fn).path(n.args[k])) or ""), (av[-1], norm(ctx_of(fn).path(n.args[-1])) or "")))
                    return [(obj("block", n.type), st)]
                if n.name in ("cells_count",) or n.k == "member" and n.name == "cells_count_":
                    return [(integer(1, 2 ** 32 - 1, "unsigned int", "a"), st)]
                if n.name in ("page_size",):
                    return [(integer(1, 2 ** 24, "unsigned long", "a"), st)]
            it = Interp(prog, hook=hook, opaque=lambda t: opaque(t) or t.name in ("layout", "heap"), intercept=take)
            args = []
            for p in f.params:
                if "unsigned" in p.type or p.type.endswith("u32") or p.type.endswith("size_t"):
                    args.append(integer(1, 2 ** 32 - 1, p.type, "a"))
                else:
                    args.append(obj(p.name or "p", p.type))
            it.run(f, args, obj("this"))
            if not r:
                raise AnalysisBroken("%s: no size found" % f.q)
        a, d = got["allocate_raw"], got["free_raw"]

        def key(v):
            v, p = v
            if v.kind == "i" and v.sym:
                return ("sym", v.sym)
            if v.kind == "i" and v.lo == v.hi:
                return ("num", v.lo)
            return ("path", re.sub(r"^.*?layout\(\)", "layout()", p))
        for i, what in ((0, "size"), (1, "alignment")):
            ks = {key(x[i]) for x in a}
            kd = {key(x[i]) for x in d}
            same = ks == kd
            if not same and all(k[0] == "sym" for k in ks | kd):
                x, y = sorted(ks)[0][1], sorted(kd)[-1][1]
                same = bool(same_function(x, y, (1, 2 ** 32 - 1), None))
            if not same and any(k[0] == "path" and not k[1].startswith("layout()") for k in ks | kd):
                rep.note("%s of %s: %s and %s are not comparable" % (what, cls, sorted(ks), sorted(kd)))
                continue
            rep.check(same, "same-size", al[0].loc, "%s: %s" % (cls, what), "allocated with %s, released with %s" % (sorted(ks), sorted(kd)))
        for w in sorted(set(wraps)):
            rep.bad("same-size", al[0].loc, "%s: %s" % w, "the size computation can wrap around")
        if cls == "LargeObject":
            # the stored count is the one that was allocated
            M = Must(prog)
            ct = [f for f in prog.fns.values() if f.cls == VM + cls and f.d.get("kind") == "ctor" or f.q == VM + "LargeObject::LargeObject"]
            good = False
            for f in ct:
                if f.cfg is None or len(f.params) < 2:
                    continue
                v = ctx_of(f).var_id(f.params[-1].id)
                for b in f.cfg.blocks.values():
                    for e in b.elems:
                        if isinstance(e, list) and e[0] == "init" and "cells_count" in str(e):
                            x = f.nodes[e[2]] if isinstance(e[2], int) else None
                            good = good or x is not None and norm(ctx_of(f).path(x)) == v
            rep.check(good, "same-size", al[0].loc, "LargeObject: stored count", "the stored number of cells is not the allocated one")


def stats(prog, rep, M):
    """statistics are changed only after everything that can fail"""
    T = Throws(prog)
    n = 0
    for f in prog.in_dir("src/vm/heap/"):
        if f.cls != VM + "Heap" or f.name in ("sweep", "free_raw"):
            continue
        for x in f.walk():
            e = M.own(f, x)
            if e is None or e[0] not in ("+=", "-=", "++", "--") or "stats_." not in str(e[1]) or str(e[1]).endswith("total_bytes"):
                continue
            n += 1
            bad = [y for y in reachable(f, x) if fails(T, y)]
            rep.check(not bad, "charge", x.loc, "%s: %s" % (f.q, norm(str(e[1]))), "the statistics are changed before %s, which may fail" % (bad[0].text()[:60] if bad else ""))
    if n < 3:
        raise AnalysisBroken("updates of heap statistics not found")


def registration(prog, rep, M):
    T = Throws(prog)
    n = 0
    for f in prog.in_dir("src/vm/heap/"):
        if f.cls != VM + "Heap":
            continue
        for c in f.calls():
            if c.q not in (VM + "Page::allocate", VM + "LargeObject::allocate"):
                continue
            rel = c.q.rsplit("::", 1)[0] + "::destroy"
            guards = []
            for x in f.walk():
                if x.k == "decl":
                    for v, i in x.d.get("vars", ()):
                        if "ScopeFailure" in f.decls[v].type or "ScopeExit" in f.decls[v].type:
                            lam = [l for _, l in f.lambdas() if any(rel == y.q or any(rel == z.q for t in prog.targets(y) for z in t.calls()) for y in l.calls())]
                            if lam:
                                guards.append(x)
            cfg = f.cfg
            gpos = [position(f, g) for g in guards]
            after = reachable(f, c)
            for y in after:
                if y.k == "call" and y.name in ("insert", "emplace", "push_back", "emplace_back") and T.site_throws(y) and re.search(r"this\.\w+", norm(ctx_of(f).path(y.obj)) or ""):
                    n += 1
                    from ..paths import dominates
                    trys = [a for a in enclosing(y)]
                    ok = any(dominates(f, g, y) and covers(f, g, y) for g in guards) or any(t.k == "try" for t in trys)
                    rep.check(ok, "guarded-registration", y.loc, "%s: %s" % (f.q, y.name), "a new chunk leaks (and stays charged) when its registration fails")
            reg = [y for y in after if y.k == "call" and y.name in ("insert", "emplace", "push_back", "emplace_back") and (norm(ctx_of(f).path(y.obj)) or "").startswith("this.")]
            rep.check(bool(reg), "guarded-registration", c.loc, "%s: registered" % f.q, "a new chunk is not registered, it is never released")
    rep.require("guarded-registration", 2, "chunk registrations")


def enclosing(n):
    x = n.parent
    while x is not None:
        yield x
        x = x.parent


def covers(f, g, y):
    """y lies in the scope of the declaration g"""
    s = g.parent
    while s is not None and s.k not in ("compound", "block"):
        s = s.parent
    if s is None:
        return True
    return any(x is s for x in enclosing(y))


def config(prog, rep, M):
    c = [f for f in prog.fns.values() if f.q == VM + "Context::Context" and f.cfg is not None and any(x.name == "init" for x in f.calls())]
    if not c:
        raise AnalysisBroken("constructor of the context not found")
    f = c[0]
    init = [x for x in f.calls() if x.name == "init"][0]
    ev = M.at(f, init) or ()
    good = [e for e in ev if e[0] == "max_size" and len(e) > 2 and "max_heap_size" in str(e[2]) or e[0] == "=" and str(e[1]).endswith("max_size_") and "max_heap_size" in str(e[2])]
    rep.check(bool(good), "configuration", f.loc, "Context::Context", "the limit of the settings is not installed before the first allocation")
    sets = [(g, x) for g in prog.in_dir("src/") for x in g.calls() if x.q == VM + "Heap::max_size" and x.args]
    for g, x in sets:
        rep.check(g is f, "configuration", x.loc, "%s: max_size" % g.q, "the limit is changed while memory is in use")
    setter = [g for g in prog.fns.values() if g.q == VM + "Heap::max_size" and g.params]
    for g in setter:
        v = ctx_of(g).var_id(g.params[0].id)
        rep.check(any(e[0] == "=" and str(e[1]) == "this.max_size_" and e[2] == v for e in M.summary(g)), "configuration", g.loc, "Heap::max_size", "the limit is not stored")
    api = [g for g in prog.in_dir("src/api/") for x in g.walk() if (M.own(g, x) or ("", ""))[0] == "=" and str(M.own(g, x)[1]).endswith("max_heap_size_bytes")]
    rep.check(bool(api), "configuration", "src/api/vm.cpp", "tiro_vm_new: max_heap_size", "the limit given by the embedding program is ignored")
    for g in api[:1]:
        for x in g.walk():
            e = M.own(g, x)
            if e is not None and e[0] == "=" and str(e[1]).endswith("max_heap_size_bytes"):
                rep.check(str(e[2]).endswith(".max_heap_size"), "configuration", x.loc, "tiro_vm_new: max_heap_size value", "installs %s" % e[2])
