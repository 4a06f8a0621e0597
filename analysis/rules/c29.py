"""C29, over the headers of the C++ wrapper and the instantiations of its templates in the witness. Rules: checked: every call of a C function that reports
errors passes a fresh error adapter (a null pointer only inside of a catch handler that reports an error itself), and never from a noexcept function.
adapter: the adapter hands out the address of its error, its destructor throws an api_error that owns the error exactly if there is one, and it can neither be
copied nor moved. holder: construct, move, assign, reset, out and destroy of the owning holders neither lose nor release twice any resource, including
self-assignment. owned: the result of every C function that gives ownership to the caller reaches an owning holder, and resources are released by
the holders only. transfer: a wrapper object that is given to the C library is released from its unique_ptr in the same call that passes a cleanup function,
and the cleanup deletes exactly the object it is given. native: the native data of a C++ object records the address of the instance after its construction,
and the finalizer destroys the instance exactly once. stored: an exception of a message callback is stored, stops further callbacks, and is rethrown by
run(). raw-checked: every handle parameter whose raw handle is passed to the C library was checked to belong to the virtual machine before. kinds: the
enumerators of the wrapper correspond one to one to the enumerators of the C interface."""
import re
from .. import util
from ..absint import V, State, null, nonnull, obj
from ..facts import AnalysisBroken
from ..scenario import Scenario
from ..must import Must
from ..util import chk
from ..paths import origin

DIR = "include/tiropp/"


def last(n):
    a = [x for x in n.args if x is not None]
    return a[-1] if a else None


def in_handler(n):
    while n is not None:
        if n.k == "catch":
            return True
        n = n.parent
    return False


def strip(n):
    while n is not None and n.k in ("cast", "paren", "materialize", "cleanups", "bind"):
        n = n.child(0)
    return n


def is_adapter(a):
    a = strip(a)
    if a is None:
        return False
    o = a.obj if a.k == "call" and a.name.startswith("operator") else a
    o = strip(o)
    return o is not None and o.k == "call" and o.d.get("ck") == "ctor" and o.q.startswith("tiro::error_adapter")


def checked(prog, rep, tp):
    for f in tp:
        for n in f.calls():
            if not n.q.startswith("tiro_") or last(n) is None or (last(n).type or "").replace(" ", "") not in ("tiro_error**", "std::nullptr_t"):
                continue
            tgt = [t for t in prog.fns.values() if t.q == n.q and t.params]
            if tgt and "tiro_error" not in tgt[0].params[-1].type:
                continue
            a = last(n)
            key = "%s: %s" % (f.q, n.q)
            if strip(a) is not None and strip(a).k == "nullptr":
                chk(rep, "checked", n, in_handler(n), "the error of the C function is ignored outside of a catch handler", key)
                continue
            chk(rep, "checked", n, is_adapter(a), "the error of the C function is not received by a fresh error_adapter", key)
            chk(rep, "checked", n, not f.flag("nx"), "an error adapter throws inside of a noexcept function", key + ": noexcept")
    rep.require("checked", 70, "calls of C functions with an error out parameter")


def adapter(prog, rep):
    cls = "tiro::error_adapter"
    d = util.one(prog, cls + "::~error_adapter")
    conv = [f for f in prog.fns.values() if f.cls == cls and f.name.startswith("operator ") and f.cfg is not None]
    if not conv:
        raise AnalysisBroken("the conversion of the error adapter is gone")
    field = None
    for f in conv:
        for v, ev, st in Scenario(prog).run(f, this=util.this(cls)):
            pass
        rets = [n for n in f.walk() if n.k == "return" and n.child(0) is not None]
        t = [strip(n.child(0)) for n in rets]
        good = [x for x in t if x is not None and x.k == "un" and x.op == "&" and strip(x.child(0)).k == "member"]
        chk(rep, "adapter", f, len(good) == len(rets) > 0, "the conversion does not return the address of the error of the adapter", "conversion")
        if good:
            field = strip(good[0].child(0)).name
    field = field or "raw_error_"
    for val, want in ((null(), False), (nonnull("E", "tiro_error *"), True)):
        th = util.this(cls)
        st = State()
        st.mem[(th.id, field)] = val
        sc = Scenario(prog)
        res = sc.run(d, this=th, state=st)
        # a path on which the destructor returns normally is one that did not throw
        chk(rep, "adapter", d, bool(res) != want, "the destructor %s" % ("swallows an error" if want else "throws without an error"), "throws iff error: %s" % want)
    th = [n for n in d.walk() if n.k == "throw"]
    for n in th:
        c = [x for x in n.walk() if x.k == "call" and x.d.get("ck") == "ctor" and x.q.startswith("tiro::api_error")]
        chk(rep, "adapter", n, any(any(y.k == "member" and y.name == field for a in x.args if a is not None for y in (origin(d, strip(a)) or a).walk()) for x in c),
            "the thrown exception does not own the error", "throws api_error")
    chk(rep, "adapter", d, not d.flag("nx"), "the destructor of the adapter must be able to throw", "destructor may throw")
    r = prog.records.get(cls)
    chk(rep, "adapter", d, not [f for f in prog.fns.values() if f.cls == cls and len(f.params) == 1 and "error_adapter" in f.params[0].type and f.cfg is not None],
        "the adapter can be copied or moved", "not copyable")
    api = [f for f in prog.fns.values() if f.q == "tiro::api_error::api_error" and len(f.params) == 1 and "tiro_error *" in f.params[0].type and f.cfg is not None]
    if not api:
        raise AnalysisBroken("constructor of api_error not found")
    rec = prog.records.get("tiro::api_error")
    if rec is not None:
        ty = [str(x) for x in rec.fields]
        chk(rep, "adapter", api[0], any("resource_holder" in x and "tiro_error_free" in x for x in ty), "api_error does not own the error", "api_error owns")


def holder(prog, rep):
    classes = sorted({f.cls for f in prog.fns.values() if f.cls and f.cfg is not None and (f.cls.startswith("tiro::detail::resource_holder<") or f.cls == "tiro::handle::holder")})
    if len(classes) < 6:
        raise AnalysisBroken("owning holders not found: %s" % classes)
    seen = set()
    for cls in classes:
        fs = [f for f in prog.fns.values() if f.cls == cls and f.cfg is not None]
        field = "handle" if cls.endswith("handle::holder") else "res_"
        rec = prog.records.get(cls)
        m = re.search(r"&(?:\w+::)*(\w+)>$", cls)
        free = m.group(1) if m else "tiro_global_free"
        short = "handle::holder" if cls.endswith("handle::holder") else "resource_holder<%s>" % free
        for f in fs:
            simple = f.name.split("<")[0]
            if simple.startswith("operator") and simple != "operator=" or simple == "get":
                continue
            move = len(f.params) == 1 and "&&" in f.params[0].type
            copy = len(f.params) == 1 and "&" in f.params[0].type and not move
            if copy:
                rep.bad("holder", f.loc, "%s: %s" % (short, simple), "an owning holder can be copied")
                continue
            what = "move constructor" if move and not simple.startswith("operator") else "move assignment" if move else simple
            ctor = what == "move constructor" or simple in ("resource_holder", "holder")
            seen.add((what, short))
            for mine in (null(), nonnull("R0")):
                if ctor and mine.path == "R0":
                    continue
                for his in ((null(), nonnull("R1")) if move else (None,)):
                    for alias in ((False, True) if what == "move assignment" else (False,)):
                        th = util.this(cls)
                        st = State()
                        args = []
                        if not ctor:
                            st.mem[(th.id, field)] = mine
                        owned = [mine.path] if not ctor else []
                        other = None
                        if move:
                            if alias:
                                other = th
                            else:
                                other = util.this(cls)
                                other.path = "other"
                                st.mem[(other.id, field)] = his
                                owned.append(his.path)
                            args = [other]
                        else:
                            for p in f.params:
                                if "vm" in p.type:
                                    args.append(nonnull("VM"))
                                else:
                                    args.append(nonnull("R1"))
                                    owned.append("R1")
                        owned = sorted(x for x in owned if x in ("R0", "R1"))
                        sc = Scenario(prog, watch=lambda n, q: n.name == free or n.name.endswith("_free") or n.name == "free", follow=lambda t: t.relfile == f.relfile)
                        sc.fixed = {free: lambda n, o, av, s: V("v")}
                        res = sc.run(f, args, th, st)
                        key = "%s: %s(%s%s)" % (short, what, "" if mine.path != "R0" else "held", ", self" if alias else ", held" if his is not None and his.path == "R1" else "")
                        same = []
                        for v, ev, s in res:
                            freed = [a for e in ev for a in e[2][:1]]
                            left = [sc.path(s.mem.get((th.id, field)), s)] if (th.id, field) in s.mem else []
                            if other is not None and not alias:
                                left += [sc.path(s.mem.get((other.id, field)), s)]
                            got = sorted(x for x in freed + left if x in ("R0", "R1"))
                            same.append((got, freed, left, [e[0] for e in ev]))
                        if what == "move assignment" and not alias:
                            # the path of the self assignment test that contradicts the setting changes nothing
                            same = [x for x in same if x[3] or x[2] not in ([], [mine.path, his.path])]
                        if not same:
                            rep.bad("holder", f.loc, key, "has no effect or never returns")
                            continue
                        ok = True
                        for got, freed, left, names in same:
                            if what.startswith("~"):
                                ok = ok and sorted(freed) == owned
                                continue
                            ok = ok and got == owned and not any(x != free for x in names)
                            if what in ("reset", "out"):
                                ok = ok and "R0" not in left
                            if what.startswith("move") and not alias and his is not None:
                                ok = ok and left[:1] == [his.path if his.path == "R1" else left[0]] and "R1" not in left[1:]
                            if what == "assign":
                                ok = ok and left[:1] == ["R1"]
                        chk(rep, "holder", f, ok, "a resource is lost, kept by both or released twice: %s" % (same[:2],), key)
    for w in ("move constructor", "move assignment", "reset"):
        if len([1 for a, b in seen if a == w]) < 2:
            raise AnalysisBroken("%s of the holders not analysed" % w)
    rep.require("holder", 20, "operations of the owning holders")


OWNERS = {"tiro_vm_new": "tiro_vm_free", "tiro_compiler_new": "tiro_compiler_free", "tiro_async_frame_token": "tiro_async_token_free",
          "tiro_global_new": "tiro_global_free"}
OUT_OWNERS = {"tiro_compiler_take_module": "tiro_module_free", "tiro_compiler_get_attachment": "free"}


def reaches_holder(prog, f, n, free, depth=0):
    """True if the value of the expression n in f is given to a holder that releases it with `free`: directly, by a variable, or by returning it"""
    if depth > 4:
        return False
    p = n.parent
    while p is not None and p.k in ("cast", "paren", "materialize", "cleanups", "bind"):
        n, p = p, p.parent
    if p is None:
        # constructor initialiser
        return any(i is n or any(x is n for x in i.walk()) and i.k == "call" and i.d.get("ck") == "ctor" for i in ())
    if p.k == "call":
        if p.d.get("ck") == "ctor":
            if "resource_holder" in p.q:
                return free in p.q or free in (p.type or "")
            for t in prog.targets(p):
                for x, prm in zip(p.args, t.params):
                    if x is not None and any(y is n for y in x.walk()) and param_owned(prog, t, prm, free, depth + 1):
                        return True
            return False
        for t in prog.targets(p):
            if t.relfile.startswith(DIR):
                for x, prm in zip(p.args, t.params):
                    if x is not None and any(y is n for y in x.walk()) and param_owned(prog, t, prm, free, depth + 1):
                        return True
        return False
    if p.k == "decl":
        for v, i in p.d.get("vars", ()):
            if i >= 0 and (f.nodes[i] is n or any(x is n for x in f.nodes[i].walk())):
                return var_owned(prog, f, v, free, depth + 1)
        return False
    if p.k == "return":
        cs = [(g, c) for g, c in prog.callers().get(f.usr, ()) if g.relfile.startswith(DIR)]
        return bool(cs) and all(reaches_holder(prog, g, c, free, depth + 1) or init_owner(prog, g, c, free) for g, c in cs)
    return False


def init_owner(prog, g, c, free):
    """the call is a constructor initialiser of a member"""
    for i in getattr(g, "d", {}).get("inits", ()) or ():
        pass
    # the initialiser of a holder member is a constructor call around the call
    x = c.parent
    while x is not None:
        if x.k == "call" and x.d.get("ck") == "ctor" and free in (x.q + (x.type or "")):
            return True
        x = x.parent
    return False


def var_owned(prog, f, vid, free, depth):
    for x in f.walk():
        if x.k == "ref" and x.d.get("d") == vid:
            if reaches_holder(prog, f, x, free, depth):
                return True
    return False


def param_owned(prog, t, prm, free, depth):
    if t.cls and ("resource_holder" in t.cls and free in t.cls):
        return True
    if t.cls == "tiro::handle::holder" and free == "tiro_global_free":
        return True
    return var_owned(prog, t, prm.id, free, depth)


def owned(prog, rep, tp):
    for f in tp:
        for n in f.calls():
            if n.q in OWNERS:
                chk(rep, "owned", n, reaches_holder(prog, f, n, OWNERS[n.q]) or init_owner(prog, f, n, OWNERS[n.q]),
                    "the result of %s does not reach an owning holder (released by %s)" % (n.q, OWNERS[n.q]), "%s: %s" % (f.q, n.q))
            if n.q in OUT_OWNERS:
                free = OUT_OWNERS[n.q]
                ok = False
                for a in n.args:
                    s = strip(a)
                    if s is None:
                        continue
                    if s.k == "call" and s.name == "out" and free in (s.obj.type if s.obj is not None else ""):
                        ok = True
                    if s.k == "un" and s.op == "&" and strip(s.child(0)).k == "ref":
                        r = strip(s.child(0))
                        ok = ok or any(x.k == "ref" and x.d.get("d") == r.d.get("d") and x is not r and reaches_holder(prog, f, x, free) for x in f.walk())
                chk(rep, "owned", n, ok, "the result of %s does not reach an owning holder (released by %s)" % (n.q, free), "%s: %s" % (f.q, n.q))
            if re.match(r"tiro_\w+_free$", n.q) or n.q in ("free", "std::free"):
                # resets may be called through a template argument: any other place must be a holder
                ok = f.cls and ("resource_holder" in f.cls or f.cls.endswith("::holder"))
                chk(rep, "owned", n, ok, "%s is called outside of an owning holder" % n.q, "%s: %s" % (f.q, n.q))
    rep.require("owned", 9, "calls that transfer ownership")


def transfer(prog, rep, tp):
    k = 0
    for f in tp:
        for n in f.calls():
            if n.name != "release" or not n.q.startswith("std::unique_ptr"):
                continue
            k += 1
            c = n.parent
            while c is not None and c.k == "cast":
                c = c.parent
            ok = c is not None and c.k == "call" and c.q.startswith("tiro_")
            clean = []
            if ok:
                for a in c.args:
                    for x in ((origin(f, strip(a)) or a).walk() if a is not None else ()):
                        if x.k == "fnref":
                            clean += [t for t in prog.fns.values() if t.q == x.q and t.cfg is not None and t.cls and any(t.usr == u for u in (x.d.get("usr"), t.usr))]
            what = origin(f, n.obj) if n.obj is not None else None
            key = "%s: release" % f.q
            chk(rep, "transfer", n, ok, "the wrapper is released from its owner outside of the call that takes it over", key)
            if not ok:
                continue
            dels = [t for t in clean if any(x.k == "delete" for x in t.walk())]
            chk(rep, "transfer", n, bool(dels), "no cleanup function that deletes the wrapper is passed together with it", key + ": cleanup")
            # evaluation order: no other argument reads the wrapper after its release
            nm = n.obj.text() if n.obj is not None else ""
            others = [a for a in c.args if a is not None and not any(x is n for x in a.walk()) and nm and any(x.k == "ref" and x.text() == nm for x in a.walk())]
            chk(rep, "transfer", n, not others, "another argument uses the wrapper that is released in the same call", key + ": order")
            for t in dels:
                res = 0
                ds = [x for x in t.walk() if x.k == "delete"]
                good = len(ds) == 1 and len(t.params) == 1 and any(x.k == "ref" and x.d.get("d") == t.params[0].id for x in ds[0].walk()) or \
                    len(ds) == 1 and origin(t, ds[0].child(0)) is not None and any(x.k == "ref" and x.d.get("d") == t.params[0].id for x in origin(t, ds[0].child(0)).walk())
                chk(rep, "transfer", t, good, "the cleanup does not delete the object it is given exactly once", "%s: deletes" % t.name)
                from ..paths import position
                blk = position(t, ds[0])[0] if ds else None
                M = Must(prog)
                chk(rep, "transfer", t, bool(ds) and not [c2 for c2 in t.walk() if c2.k in ("if", "while", "for", "switch", "cond")], "the cleanup deletes only under a condition", "%s: always" % t.name)
    if not k:
        raise AnalysisBroken("no wrapper is transferred to the C library")
    # nobody else deletes
    for f in tp:
        for x in f.walk():
            if x.k == "delete":
                chk(rep, "transfer", x, f.name == "cleanup" or len(f.params) == 1 and f.params[0].type == "void *", "delete outside of a cleanup function", "%s: delete" % f.q)


def native(prog, rep, tp):
    cls = [f for f in tp if "native_traits<" in (f.cls or "") and f.cfg is not None]
    ctor = [f for f in cls if f.name == "constructor"]
    fin = [f for f in cls if f.name == "finalizer"]
    acc = [f for f in cls if f.name == "accessor"]
    if not ctor or not fin or not acc:
        raise AnalysisBroken("native_traits not found")
    for f in fin:
        def is_dtor(n, q):
            return n.name.startswith("~") or q.endswith("destroy_at")
        for val, want in ((null(), 0), (nonnull("I"), 1)):
            l = util.this("layout")
            l.path = "L"
            st = State()
            st.mem[(l.id, "ptr")] = val
            sc = Scenario(prog, watch=is_dtor)
            args = [l] + [obj("size")] * (len(f.params) - 1)
            res = sc.run(f, args, None, st)
            for v, ev, s in res:
                chk(rep, "native", f, len(ev) == want, "the instance is destroyed %d times, expected %d" % (len(ev), want), "finalizer: %s" % ("live" if want else "destroyed"))
                if want:
                    now = [x for k2, x in s.mem.items() if k2[-1] == "ptr" and k2[0] != l.id] + [s.mem.get((l.id, "ptr"))]
                    chk(rep, "native", f, now[0] is not None and sc.path(now[0], s) in ("null", "nullptr"), "the finalizer leaves the address of the destroyed instance behind", "finalizer: cleared")
            chk(rep, "native", f, bool(res), "the finalizer never returns", "finalizer: returns")
    for f in ctor:
        news = [n for n in f.walk() if n.k == "new"]
        sets = [n for n in f.walk() if n.k == "bin" and n.op == "=" and strip(n.child(0)) is not None and strip(n.child(0)).k == "member" and strip(n.child(0)).name == "ptr"]
        chk(rep, "native", f, len(news) == 2, "the layout and the instance are not both constructed in place", "constructor: news")
        chk(rep, "native", f, len(sets) == 1, "the address of the instance is not recorded", "constructor: recorded")
        if len(news) == 2 and len(sets) == 1:
            from ..paths import dominates
            chk(rep, "native", f, all(dominates(f, x, sets[0]) for x in news), "the instance counts as constructed before its construction", "constructor: order")
    rep.require("native", 6, "steps of the native life cycle")
    mk = [f for f in tp if f.name == "make" and "native_type<" in (f.cls or "") and f.cfg is not None]
    for f in mk:
        m = [n for n in f.calls() if n.q == "tiro_make_native"]
        cs = [n for n in f.calls() if n.name == "constructor"]
        from ..paths import dominates
        chk(rep, "native", f, len(m) == 1 and len(cs) == 1 and dominates(f, m[0], cs[0]), "the instance is not constructed once after its memory was allocated", "make: constructs")
    for f in [f for f in tp if f.cls and "native_type<" in f.cls and f.name in ("access", "destroy", "is_destroyed") and f.cfg is not None]:
        M = Must(prog)
        use = [n for n in f.calls() if n.name in ("accessor", "finalizer")]
        chk(rep, "native", f, bool(use), "does not use the native data", "%s: uses" % f.name)
        for n in use:
            cked = [c for c in f.calls() if c.name == "check_instance"]
            chk(rep, "native", n, any(dominates(f, c, n) for c in cked), "the type of the native object is not checked before its data is used", "%s: %s" % (f.name, n.name))


def reached_returns(f, n):
    """the return statements that may run after the node n"""
    from ..paths import position
    b, i = position(f, n)[:2]
    todo, seen, out = [(b, i)], set(), []
    while todo:
        b, i = todo.pop()
        for x in f.cfg.blocks[b].elems[i:]:
            x = f.nodes[x] if isinstance(x, int) else x
            if x is not None and x.k == "return":
                out.append(x)
        for s in f.cfg.blocks[b].succ:
            s = s[0] if isinstance(s, tuple) else s
            if s is not None and s not in seen:
                seen.add(s)
                todo.append((s, 0))
    return out


def cleared(c, e):
    """the returned variable is set to false in the handler that contains c"""
    while c is not None and c.k != "catch":
        c = c.parent
    return c is not None and e is not None and e.k == "ref" and any(
        x.k == "bin" and x.op == "=" and strip(x.child(0)).k == "ref" and strip(x.child(0)).d.get("d") == e.d.get("d") and false(strip(x.child(1))) for x in c.walk())


def false(e):
    while e is not None and e.k == "cast":
        e = e.child(0)
    return e is not None and (e.text() in ("false", "0") or str(e.d.get("v")) in ("0", "false", "False"))


def stored(prog, rep, tp):
    f = util.one(prog, "tiro::compiler::set_message_callback")
    lams = [l for n, l in f.lambdas()]
    if not lams:
        raise AnalysisBroken("the native message callback is gone")
    for l in lams:
        user = [n for n in l.calls() if n.q.startswith("std::function<") and n.name == "operator()"]
        cur = [n for n in l.calls() if n.q == "std::current_exception"]
        chk(rep, "stored", l, bool(user), "the user's callback is not called", "callback called")
        chk(rep, "stored", l, bool(cur) and all(in_handler(n) for n in cur), "an exception of the callback is not stored", "exception stored")
        for had in (True, False):
            sc = Scenario(prog, {"std::__exception_ptr::exception_ptr::operator bool": lambda n, o, av, s: V("b", pred=had)}, watch=lambda n, q: q.startswith("std::function") and n.name == "operator()")
            res = sc.run(l)
            n = max([len(ev) for v, ev, s in res] or [-1])    # the handler is a path of its own without the call
            chk(rep, "stored", l, n == (0 if had else 1), "the callback is called %d times when an exception is %s" % (n, "pending" if had else "not pending"), "pending: %s" % had)
            if had:
                bad = [sc.path(v, s) for v, ev, s in res if sc.path(v, s) not in ("false", "0")]
                chk(rep, "stored", l, not bad, "the compiler continues although an exception is pending", "pending stops")
        for c in cur:
            for r in reached_returns(l, c):
                chk(rep, "stored", r, false(strip(r.child(0))) or cleared(c, strip(r.child(0))), "the compiler continues after an exception of the callback", "stops")
    run = util.one(prog, "tiro::compiler::run")
    rt = [n for g in tp for n in g.calls() if n.q == "std::rethrow_exception"]
    chk(rep, "stored", run, bool(rt), "a stored exception is never rethrown", "rethrown")
    hs = [n for n in run.walk() if n.k == "catch"]
    good = [h for h in hs if any(x.k == "call" and (x.q == "std::rethrow_exception" or any(any(y.q == "std::rethrow_exception" for y in t.calls()) for t in prog.targets(x))) for x in h.walk())]
    chk(rep, "stored", run, bool(good), "run() does not rethrow the exception of the callback", "run rethrows")
    for h in hs:
        chk(rep, "stored", h, any(x.k == "throw" for x in h.walk()), "run() swallows an error of the compiler", "run: rethrows error")


def raw_checked(prog, rep, tp):
    from ..paths import dominates
    n_ob = 0
    for f in tp:
        ps = {p.id: p for p in f.params if re.match(r"(const )?tiro::\w+ &$", p.type) and handle_type(prog, p.type)}
        if f.cls == "tiro::handle" or f.relfile.endswith("detail/handle_check.hpp"):
            continue
        cks = [c for c in f.calls() if c.name == "check_handles"]
        for n in f.calls():
            if n.name != "raw_handle" or n.obj is None:
                continue
            o = strip(n.obj)
            if o is not None and o.k == "un" and o.op == "*":
                o = strip(o.child(0))
            if o is not None and o.k == "this":
                n_ob += 1
                chk(rep, "raw-checked", n, any(dominates(f, c, n) and any(x.k == "this" for a in c.args[1:] if a is not None for x in a.walk()) for c in cks),
                    "the handle itself is passed to the C library without having been checked", "%s: this" % f.q)
                continue
            if o is None or o.k != "ref" or o.d.get("d") not in ps:
                continue
            user = n.parent
            while user is not None and user.k == "cast":
                user = user.parent
            n_ob += 1
            ok = any(dominates(f, c, n) and any(any(x.k == "ref" and x.d.get("d") == o.d.get("d") for x in a.walk()) for a in c.args[1:] if a is not None) for c in cks)
            chk(rep, "raw-checked", n, ok, "the handle parameter is passed to the C library without having been checked", "%s: %s" % (f.q, o.text()))
    rep.require("raw-checked", 60, "handle parameters")


_handles = {}


def handle_type(prog, t):
    t = t.replace("const ", "").replace("&", "").strip()
    if t not in _handles:
        r = prog.records.get(t)
        _handles[t] = t == "tiro::handle" or r is not None and any("tiro::handle" in str(b) for b in (r.d.get("bases") or ()))
    return _handles[t]


def kinds(prog, rep):
    for cxx, c, pre in (("tiro::value_kind", "tiro_kind", "TIRO_KIND_"), ("tiro::api_errc", "tiro_errc", "TIRO_ERROR_"), ("tiro::attachment", "tiro_attachment", "TIRO_ATTACHMENT_"), ("tiro::severity", "tiro_severity", "TIRO_SEVERITY_")):
        a, b = util.values(prog, cxx), util.values(prog, c)
        if not a or not b:
            raise AnalysisBroken("enumeration %s / %s not found" % (cxx, c))
        for n, v in a.items():
            w = "TIRO_OK" if n == "ok" else pre + n.rstrip("_").upper()
            w2 = b.get(w)
            chk(rep, "kinds", None, w2 is not None and w2 == v, "%s::%s does not have the value of %s" % (cxx, n, w), "%s::%s" % (cxx, n))
        for n, v in b.items():
            if n == "TIRO_OK":
                continue
            chk(rep, "kinds", None, v in a.values(), "%s has no counterpart in %s" % (n, cxx), "%s" % n)
    for q, i in prog.inits.items():
        m = re.search(r"type_to_value_kind>#\$@N@tiro@S@(\w+)@kind", q)
        if m:
            names = [x.name for x in i.walk() if x.k == "enum"]
            chk(rep, "kinds", None, names[:1] == [m.group(1)], "the class tiro::%s checks for the kind %s" % (m.group(1), names[:1]), "kind_of<%s>" % m.group(1))
    rep.require("kinds", 60, "enumerators")


def run(prog, rep):
    util.rules(rep, __doc__)
    tp = [f for f in prog.fns.values() if f.cfg is not None and f.relfile.startswith(DIR)]
    lam = []
    for f in tp:
        lam += [l for n, l in f.lambdas() if l.cfg is not None]
    tp = list({f.usr: f for f in tp + lam}.values())
    if len(tp) < 200:
        raise AnalysisBroken("the C++ wrapper was not analysed")
    checked(prog, rep, tp)
    adapter(prog, rep)
    holder(prog, rep)
    owned(prog, rep, tp)
    transfer(prog, rep, tp)
    native(prog, rep, tp)
    stored(prog, rep, tp)
    raw_checked(prog, rep, tp)
    kinds(prog, rep)
