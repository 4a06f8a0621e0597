"""C31, for every function of the C interface that takes a cleanup function together with userdata. Rules: accepted: on every path through the function, for a
cleanup function that is given and for one that is not, the userdata is either cleaned up once or moved into exactly one owner, never both, never through a null
pointer, and nothing that may throw happens before that. owner: the owner conserves the pending cleanup in each of its operations: construction, move,
completion and destruction either keep it, hand it on or call it, exactly once. invoked: completion calls the user's callback once, before the cleanup. stored:
the owner is moved once into the native object that was created for it, and nothing in between may throw or collect garbage. destroyed: the finalizer of the
native object runs the virtual destructor of the owner once."""
import re
from .. import util
from ..absint import V, State, null, nonnull, obj
from ..facts import AnalysisBroken
from ..scenario import Scenario
from ..util import chk
from ..paths import origin
from ..effects import Throws

CB = "tiro::vm::CoroutineCallback"


def takes_cleanup(f):
    """index of a parameter `void (*)(void *)` that is followed by the userdata"""
    for i, p in enumerate(f.params[:-1]):
        if p.type.replace(" ", "") == "void(*)(void*)" and f.params[i + 1].type.replace(" ", "") == "void*":
            return i
    return None


def derived(prog):
    return {q: r for q, r in prog.records.items() if CB in (r.d.get("bases") or ())}


def held_fields(cls_fns):
    """names of the members that the constructor sets to the cleanup function and the userdata: (cleanup, userdata)"""
    for f in cls_fns:
        if f.name != f.cls.split("::")[-1] or len(f.params) < 2:
            continue
        th = util.this(f.cls)
        args = []
        for p in f.params:
            t = p.type.replace(" ", "")
            args.append(nonnull("CLEANUP") if t == "void(*)(void*)" else obj("USERDATA") if t == "void*" else nonnull(p.name))
        sc = Scenario(f.prog, follow=lambda t: t.cls == f.cls)
        for v, ev, s in sc.run(f, args, th):
            m = {sc.path(x, s): k[1] for k, x in s.mem.items() if k[0] == th.id}
            if "CLEANUP" in m and "USERDATA" in m:
                return m["CLEANUP"], m["USERDATA"]
    return None


def accepted(prog, rep, T):
    n = 0
    for f in prog.fns.values():
        if not f.relfile.startswith("src/api/") or f.cfg is None or not f.flag("xc"):
            continue
        k = takes_cleanup(f)
        if k is None:
            continue
        n += 1
        cn, un = f.params[k].name, f.params[k + 1].name
        bodies = [l for x, l in f.lambdas() if any(y.k == "ref" and y.text() == cn for y in l.walk())] or [f]
        for l in bodies[:1]:
            ids = {y.text(): y.d.get("d") for y in l.walk() if y.k == "ref" and y.text() in (cn, un)}
            for p in l.params:
                if p.name in (cn, un):
                    ids[p.name] = p.id
            for given in (True, False):
                st = State()
                st.env[(1, ids.get(cn))] = nonnull("CLEANUP") if given else null()
                st.env[(1, ids.get(un))] = obj("USERDATA")

                def watch(x, q):
                    if x.k == "call" and not q:
                        return True
                    if any(t.flag("lam") and t.relfile == l.relfile for t in prog.targets(x)):
                        return False
                    if x.d.get("ck") == "ctor" and any(t.cls in own for t in prog.targets(x)):
                        return True
                    return x.name == "set_callback" or throws(T, prog, x)
                own = {t.cls for t in prog.fns.values() if t.cls and t.cfg is not None and t.name == t.cls.split("::")[-1] and CB in bases(prog, t)}
                if not own:
                    raise AnalysisBroken("no owner of the userdata found")
                sc = Scenario(prog, watch=watch, follow=lambda t: t.flag("lam") and t.relfile == l.relfile and t.usr != l.usr)
                args = [st.env.get((1, ids.get(p.name))) or obj(p.name) for p in l.params]
                res = sc.run(l, args, None, st)
                key = "%s, cleanup %s" % (f.q, "given" if given else "null")
                if not res:
                    rep.bad("accepted", f.loc, key, "never returns")
                for v, ev, s in res:
                    calls = [e for e in ev if not e[0]]
                    mine = [e for e in calls if "null" in e[2][:1] or "nullptr" in e[2][:1] or e[2][:1] == ("CLEANUP",) or e[1] == "CLEANUP" or "CLEANUP" in e[2]]
                    owners = [e for e in ev if e[0] in {c.split("::")[-1] for c in own}]
                    owns = [e for e in owners if "CLEANUP" in e[2]]
                    if given:
                        chk(rep, "accepted", f, len(mine) + len(owns) == 1, "the userdata is cleaned up %d times and owned %d times on a path" % (len(mine), len(owns)), key)
                        chk(rep, "accepted", f, all("USERDATA" in e[2] for e in mine + owns), "the cleanup is not given the userdata", key + ": argument")
                        first = next((i for i, e in enumerate(ev) if e in mine or e in owns), len(ev))
                        early = [e[0] for e in ev[:first]]
                        chk(rep, "accepted", f, not early, "%s may throw while nothing owns the userdata" % ", ".join(early), key + ": before")
                    else:
                        chk(rep, "accepted", f, not calls, "a null cleanup function is called", key)
                    if owners:
                        # the owner is registered
                        chk(rep, "accepted", f, len([e for e in ev if e[0] == "set_callback"]) == 1 and len(owners) == 1, "the owner is not registered once", key + ": registered")
    if not n:
        raise AnalysisBroken("no function of the C interface takes a cleanup function")
    rep.require("accepted", 6, "paths through functions that take a cleanup function")


def bases(prog, t):
    r = prog.records.get(t.cls)
    if r is None:
        cand = [x for q, x in prog.records.items() if q.split("::")[-1] == t.cls.split("::")[-1] and CB in (x.d.get("bases") or ())]
        r = cand[0] if cand else None
    return (r.d.get("bases") or ()) if r is not None else ()


def throws(T, prog, x):
    if x.k != "call":
        return False
    if x.d.get("ck") == "ctor" and (x.q.startswith("tiro::SourceLocation") or x.d.get("nx")):
        return False
    if x.d.get("nx") or not x.q:
        return False
    ts = [t for t in prog.targets(x) if t.cfg is not None]
    if ts:
        return any(t.usr in T.why for t in ts)
    return False


def owner(prog, rep):
    classes = {}
    for t in prog.fns.values():
        if t.cls and t.cfg is not None and t.cls != CB and (CB in bases(prog, t)):
            classes.setdefault(t.cls, []).append(t)
    if not classes:
        raise AnalysisBroken("no class derived from CoroutineCallback")
    for cls, fs in sorted(classes.items()):
        hf = held_fields(fs)
        if hf is None:
            raise AnalysisBroken("%s: cleanup and userdata not found" % cls)
        cf, uf = hf
        short = cls.split("::")[-1]
        kinds = set()
        for f in fs:
            if f.name in ("size", "align", "callback"):
                continue
            move = len(f.params) == 1 and "&&" in f.params[0].type
            ctor = f.name == short
            if ctor and len(f.params) == 1 and not move:
                rep.bad("owner", f.loc, "%s: copy" % short, "the owner of the userdata can be copied")
                continue
            what = "move constructor" if move and ctor else "constructor" if ctor else "destructor" if f.name.startswith("~") else f.name
            kinds.add(what)
            for given in (True, False):
                th = util.this(cls)
                st = State()
                val = nonnull("CLEANUP") if given else null()
                other = None
                args = []
                if what == "move constructor":
                    other = util.this(cls)
                    other.path = "other"
                    st.mem[(other.id, cf)], st.mem[(other.id, uf)] = val, obj("USERDATA")
                    args = [other]
                elif what == "constructor":
                    for p in f.params:
                        t = p.type.replace(" ", "")
                        args.append(val if t == "void(*)(void*)" else obj("USERDATA") if t == "void*" else nonnull(p.name))
                else:
                    st.mem[(th.id, cf)], st.mem[(th.id, uf)] = val, obj("USERDATA")
                    args = [obj(p.name) for p in f.params]
                # other members that are tested (such as the callback) stay unknown
                sc = Scenario(prog, watch=lambda x, q: x.k == "call" and not q or x.d.get("ck") == "ctor" and x.name == short, follow=lambda t: t.cls == cls and t.name != short)
                res = sc.run(f, args, th, st)
                key = "%s::%s, cleanup %s" % (short, what, "given" if given else "null")
                if not res:
                    rep.bad("owner", f.loc, key, "never returns")
                for v, ev, s in res:
                    called = [e for e in ev if not e[0] and ("CLEANUP" in e[2] or not given and e[2][:1] in (("null",), ("nullptr",)))]
                    left = [sc.path(s.mem.get((o.id, cf)), s) for o in (th, other) if o is not None]
                    held = left.count("CLEANUP")
                    moved = [e for e in ev if e[0] == short]
                    if not given:
                        chk(rep, "owner", f, not called, "a null cleanup function is called", key)
                        continue
                    if what == "destructor":
                        chk(rep, "owner", f, len(called) == 1, "the pending cleanup is called %d times" % len(called), key)
                    elif what in ("move constructor", "constructor"):
                        chk(rep, "owner", f, held == 1 and not called and left[0] == "CLEANUP", "the pending cleanup is lost or kept by both", key)
                        chk(rep, "owner", f, sc.path(s.mem.get((th.id, uf)), s) == "USERDATA", "the userdata is lost", key + ": userdata")
                    else:
                        if moved:
                            ok = len(moved) == 1 and not called
                        else:
                            ok = len(called) + held == 1
                        chk(rep, "owner", f, ok, "the pending cleanup is called %d times and kept %d times" % (len(called), held), key)
                    chk(rep, "owner", f, all("USERDATA" in e[2] for e in called), "the cleanup is not given the userdata", key + ": argument")
                    if what == "done":
                        ind = [e for e in ev if not e[0]]
                        user = [i for i, e in enumerate(ind) if e not in called]
                        cl = [i for i, e in enumerate(ind) if e in called]
                        chk(rep, "invoked", f, len(user) == 1 and "USERDATA" in ind[user[0]][2], "the callback is called %d times" % len(user), key)
                        chk(rep, "invoked", f, not cl or not user or user[0] < cl[0], "the userdata is cleaned up before the callback uses it", key + ": order")
        for w in ("constructor", "destructor", "done"):
            if w not in kinds:
                rep.bad("owner", fs[0].loc, "%s: %s" % (short, w), "the owner has no %s that handles the cleanup" % w)
        mv = [f for f in fs if f.name == "move"]
        for f in mv:
            # relocation constructs the copy by moving *this
            sc = Scenario(prog, watch=lambda x, q: x.d.get("ck") == "ctor" and x.name == short, follow=lambda t: False)
            res = sc.run(f, [nonnull("DEST"), obj("SIZE")], util.this(cls))
            for v, ev, s in res:
                chk(rep, "owner", f, len(ev) == 1 and ev[0][2] == ("this",), "the owner is not moved to its destination exactly once", "%s::move: relocates" % short)
        for nm, want in (("size", "sizeof"), ("align", "alignof")):
            for f in [f for f in fs if f.name == nm]:
                rec = [r for q, r in prog.records.items() if q.split("::")[-1] == short]
                vals = set()
                sc = Scenario(prog)
                for v, ev, s in sc.run(f, [], util.this(cls)):
                    vals.add(sc.path(v, s))
                texts = [x.text() for x in f.walk() if x.k == "return"]
                chk(rep, "owner", f, any(x.k in ("sizeof", "alignof", "uett") or want in (x.text() or "") for x in f.walk()) or all(re.fullmatch(r"\d+", x or "") for x in vals), "the %s of the owner is wrong" % nm, "%s::%s" % (short, nm))
    rep.require("owner", 8, "operations of the owner")
    rep.require("invoked", 2, "completions")


def sized(f, cb):
    for c in f.calls():
        if c.name == "make" and "NativeObject" in c.q and c.args:
            a = [x for x in c.args if x is not None][-1]
            o = origin(f, a) or a
            if any(y.k == "call" and y.name == "size" and y.obj is not None and any(z.k == "ref" and z.text() == cb.name for z in y.obj.walk()) for y in o.walk()):
                return True
    return False


def stored(prog, rep, T):
    f = util.one(prog, "tiro::vm::Context::set_callback")
    interesting = ("make", "move", "native_callback")

    def watch(x, q):
        return x.name in interesting and (x.name != "make" or "NativeObject" in q) and (x.name != "native_callback" or len([a for a in x.args if a is not None]) > 0) \
            or x.name == "move" and not q.startswith("std::") or throws(T, prog, x)
    sc = Scenario(prog, watch=lambda x, q: watch(x, q) and not q.startswith("std::"))
    cb = next((p for p in f.params if "CoroutineCallback" in p.type), None)
    if cb is None:
        raise AnalysisBroken("parameter for the callback not found")
    res = sc.run(f, [obj(p.name) for p in f.params])
    if not res:
        rep.bad("stored", f.loc, f.q, "never returns")
    for v, ev, s in res:
        names = [e[0] for e in ev]
        mk = [i for i, e in enumerate(names) if e == "make"]
        mv = [i for i, e in enumerate(ev) if e[0] == "move" and e[1] == cb.name]
        chk(rep, "stored", f, len(mk) == 1 and len(mv) == 1 and mk[0] < mv[0], "the owner is moved %d times into %d objects" % (len(mv), len(mk)), "moved once")
        if len(mk) == 1 and len(mv) == 1:
            between = [e[0] for e in ev[mk[0] + 1:mv[0]] if e[0] not in ("local",)]
            chk(rep, "stored", f, not between, "%s may throw or collect the object before it owns the callback" % between, "nothing in between")
            sets = [e for e in ev[mv[0]:] if e[0] == "native_callback"]
            chk(rep, "stored", f, len(sets) == 1 and sets[0][2] and sets[0][2][0] not in ("null", ""), "the object is not attached to the coroutine", "attached")
            chk(rep, "stored", f, sized(f, cb), "the object does not have the size of the owner", "size")
    # who creates objects of this type, and its finalizer
    types = [(q, i) for q, i in prog.inits.items() if "coroutine_callback_type" in q]
    if not types:
        types = [(q, i) for q, i in prog.inits.items() if any(y.k == "lambda" for y in i.walk()) and i.relfile == f.relfile]
    fin = []

    def collect(g, d=0):
        for n, l in g.lambdas():
            if any(x.k == "call" and x.name == "~CoroutineCallback" or x.name == "~CoroutineCallback" for x in l.walk()):
                fin.append(l)
            if d < 3:
                collect(l, d + 1)
    for q, i in types:
        collect(i)
    for g in prog.fns.values():
        if g.relfile == f.relfile and len(g.params) == 2 and g.params[0].type == "void *" and any(x.name == "~CoroutineCallback" for x in g.calls()):
            fin.append(g)
    fin = list({l.usr: l for l in fin}.values())
    chk(rep, "destroyed", f, len(fin) == 1, "the finalizer of the native object does not destroy the owner", "finalizer")
    for l in fin:
        sc = Scenario(prog, watch=lambda x, q: x.name.startswith("~"))
        for v, ev, s in sc.run(l, [nonnull("DATA"), obj("SIZE")]):
            chk(rep, "destroyed", l, len(ev) == 1 and "DATA" in ev[0][1], "the owner is destroyed %d times" % len(ev), "once")
    r = prog.records.get(CB)
    ms = [m for m in (r.d.get("methods") or ()) if m["n"].startswith("~")] if r is not None else []
    chk(rep, "destroyed", f, bool(ms) and any(m.get("virt") or m.get("v") or m.get("virtual") for m in ms), "the destructor of the owner is not virtual", "virtual destructor")
    ex = util.one(prog, "tiro::vm::Context::execute_callbacks")
    sc = Scenario(prog, watch=("done",))
    seen = set()
    for v, ev, s in sc.run(ex):
        seen.add(len(ev))
    chk(rep, "invoked", ex, seen == {0, 1}, "the completion is signalled %s times" % sorted(seen), "execute_callbacks")


def run(prog, rep):
    util.rules(rep, __doc__)
    T = Throws(prog)
    accepted(prog, rep, T)
    owner(prog, rep)
    stored(prog, rep, T)
