"""C30: control flow graph regions of every switch over an enumeration. Rule `exhaustive`: a switch without default lists every enumerator
(enumerators that alias another value or mark ranges excluded). Rule `union-dispatch`: in every visitor of a tagged union, the case of a tag
touches exactly the alternative of that tag and calls the handler of that name; the pairing is the same for constructors, accessors, copy,
move, destroy and comparison functions. Rule `union-assign`: assignment of tagged unions keeps tag and alternative in step. Rule
`node-dispatch`: visits of syntax nodes and runtime objects cast to the type that belongs to the tag. Rule `names`: tables of names, evaluated
statically for every enumerator, give every enumerator its own name. Rule `compare`: equality compares the same fields on both sides, all of
them, and only after the tags were found equal."""
import re
from collections import defaultdict
from ..facts import AnalysisBroken
from ..guards import Engine, Facts, ctx_of, norm, strip_targs
from ..paths import switches, ends_noreturn, origin, enum_values
from ..consteval import table

MARK = re.compile(r"^(First|Last)[A-Z]|^(MAX_VALUE|MIN_VALUE|Max|Min)$")


def nrm(s):
    return s.replace("_", "").lower()


def bare(t):
    t = t.strip()
    t = re.sub(r"^const ", "", t)
    t = re.sub(r"\s*(&&|&|\*)+\s*(const)?$", "", t)
    return re.sub(r"^const ", "", t).strip()


def values(prog, t):
    """value -> names"""
    out = {}
    for n, v in enum_values(prog, t):
        out.setdefault(v, []).append(n)
    return out


def real_values(prog, t):
    return {v: [n for n in ns if not MARK.match(n)] for v, ns in values(prog, t).items() if any(not MARK.match(n) for n in ns)}


def case_map(prog, sw, t):
    """value -> block"""
    ev = dict(enum_values(prog, t))
    out = {}
    for k, b in sw.cases.items():
        if isinstance(k, str):
            k = ev.get(k.rsplit("::", 1)[-1])
        if k is not None:
            out[int(k)] = b
    return out


def region(fn, b, stop):
    """blocks reachable from b without entering blocks in stop"""
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        if not fn.cfg.blocks[x].noreturn:
            st.extend(s for s in fn.cfg.blocks[x].succ if s >= 0)
    return seen


def case_nodes(fn, sw, cm, v):
    """nodes that are evaluated only for the value v: reachable from its case but not from the cases that lead elsewhere"""
    b = cm[v]
    mine = region(fn, b, {sw.blk.id})
    rest = set()
    for o in set(cm.values()) | ({sw.default} if sw.default is not None else set()):
        if o != b and o is not None:
            rest |= region(fn, o, {sw.blk.id, b})
    out = []
    for x in sorted(mine - rest):
        for e in fn.cfg.blocks[x].elems:
            if not isinstance(e, list) and fn.nodes[e] is not None:
                out.append(fn.nodes[e])
    return out


def deep(nodes):
    seen = set()
    for n in nodes:
        for x in n.walk():
            if x.id not in seen:
                seen.add(x.id)
                yield x


def switch_enum(prog, sw):
    t = bare(sw.cond.type) if sw.cond is not None else None
    if t in prog.enums:
        return t
    if sw.enum in prog.enums:
        return sw.enum
    c = origin(sw.fn, sw.cond) if sw.cond is not None else None
    if c is not None and bare(c.type) in prog.enums:
        return bare(c.type)
    return None


def unions(prog):
    """class type -> (tag enum, field of the tag, {value: member}, {member: type})"""
    out = {}
    for t, r in prog.records.items():
        anon = [f for f in r.fields if not f["n"] and "(anonymous union" in f["t"]]
        tags = [f for f in r.fields if f["t"] in prog.enums]
        if len(anon) != 1 or not tags:
            continue
        u = prog.records.get(anon[0]["t"])
        if u is None:
            continue
        members = {f["n"]: f["t"] for f in u.fields}
        for tag in tags:
            ev = real_values(prog, tag["t"])
            m = {}
            for v, ns in ev.items():
                c = [x for x in members for n in ns if nrm(x) == nrm(n)]
                if len(c) == 1:
                    m[v] = c[0]
            if len(m) == len(ev) and len(set(m.values())) == len(members):
                out[t] = (tag["t"], tag["n"], m, members)
    return out


def run(prog, rep):
    for r, t in (("exhaustive", "a switch without default lists every enumerator"),
                 ("union-dispatch", "every function of a tagged union uses the alternative named by the tag"),
                 ("union-assign", "assignment and destruction keep tag and alternative in step"),
                 ("node-dispatch", "visits cast to the type that belongs to the tag"),
                 ("names", "every enumerator has its own name"),
                 ("compare", "equality compares equal tags and the same fields")):
        rep.rule(r, t)
    eng = Engine(prog)
    scope = prog.in_dir("src/", "include/")
    scope = [f for f in scope if "/bindings" not in f.relfile]

    # A: exhaustiveness
    for f in scope:
        for sw in switches(f):
            t = switch_enum(prog, sw)
            if t is None:
                continue
            if sw.default is not None and not ends_noreturn(f, sw.default):
                rep.ok("exhaustive", f.q)
                continue
            ev = real_values(prog, t)
            cm = case_map(prog, sw, t)
            miss = [ns[0] for v, ns in ev.items() if v not in cm]
            if sw.default is not None and miss:
                # explicitly rejected
                rep.ok("exhaustive", f.q)
                continue
            rep.check(not miss, "exhaustive", f.loc, "%s: %s" % (strip_targs(f.q), t), "does not handle %s" % ", ".join(miss))
    rep.require("exhaustive", 180, "switches")

    # B..G: unions
    us = unions(prog)
    if len(us) < 12:
        raise AnalysisBroken("tagged unions not found (%d)" % len(us))
    for f in scope:
        t = None
        if f.params and bare(f.params[0].type) in us:
            t = bare(f.params[0].type)
        elif f.cls in us:
            t = f.cls
        if t is None:
            continue
        en, tag, m, members = us[t]
        short = t.replace("tiro::", "")
        for sw in switches(f):
            if switch_enum(prog, sw) != en:
                continue
            cm = case_map(prog, sw, en)
            names = values(prog, en)
            for v in cm:
                ns = case_nodes(f, sw, cm, v)
                nm = names[v][0]
                used = {x.name for x in deep(ns) if x.k == "member" and x.name in members and t in (bare(x.child(0).type) if x.child(0) is not None else "", x.d.get("cls", ""), f.cls)
                        or x.k == "member" and x.name in members and "(anonymous union)" in x.q}
                vis = [x for x in deep(ns) if x.k == "call" and x.name.startswith("visit_") and x.args]
                what = "%s::%s %s" % (short, strip_targs(f.name), nm)
                if used:
                    rep.check(used == {m[v]}, "union-dispatch", f.loc, what, "the case of %s uses the alternative %s" % (nm, ", ".join(sorted(used))))
                for c in vis:
                    rep.check(nrm(c.name[6:]) in [nrm(x) for x in names[v]], "union-dispatch", c.loc, what + " handler", "the case of %s calls %s" % (nm, c.name))
        if f.flag("ctor"):
            ini = {i[0].rsplit("::", 1)[1]: f.nodes[i[1]] for i in f.d.get("inits", ()) if i[0].startswith(t) or "(anonymous union)" in i[0]}
            alt = [x for x in ini if x in members]
            if alt and tag in ini:
                n = origin(f, ini[tag])
                if n is not None and n.value is not None:
                    rep.check(len(alt) == 1 and m.get(n.value) == alt[0], "union-dispatch", f.loc, "%s constructor of %s" % (short, alt[0]),
                              "is tagged as %s" % n.name)
        if f.name.startswith("as_") and f.cls == t:
            used = {x.name for x in f.walk() if x.k == "member" and x.name in members and "(anonymous union)" in x.q}
            tagv = [x for x in f.walk() if x.k == "enum" and x.type == en]
            calls = [c for c in f.calls() if c.name.startswith("as_") and c.d.get("cls") == t]
            if used:
                rep.check(len(used) == 1 and nrm(next(iter(used))) == nrm(f.name[3:]), "union-dispatch", f.loc, "%s::%s" % (short, f.name),
                          "returns the alternative %s" % ", ".join(sorted(used)))
                for x in tagv:
                    rep.check(nrm(x.name) == nrm(f.name[3:]), "union-dispatch", f.loc, "%s::%s test" % (short, f.name), "tests for the tag %s" % x.name)
            for c in calls:
                rep.check(c.name == f.name, "union-dispatch", f.loc, "%s::%s" % (short, f.name), "forwards to %s" % c.name)
    rep.require("union-dispatch", 300, "alternatives")

    visitors(prog, rep, scope, us)
    assignment(prog, rep, eng, us)
    nodes(prog, rep, scope)
    names_unique(prog, rep, scope)
    compare(prog, rep, eng, scope, us)


def visitors(prog, rep, scope, us):
    """local visitor classes: a handler named after an alternative only touches that alternative of the other object"""
    allm = defaultdict(list)
    for t, (en, tag, m, members) in us.items():
        for x in members:
            allm[x].append(t)
    for f in scope:
        if not f.name.startswith("visit_") or not f.params:
            continue
        own = nrm(f.name[6:])
        # an enclosing function of a union class
        for t, (en, tag, m, members) in us.items():
            if not (bare(f.params[0].type) in members.values()):
                continue
            if not any(nrm(x) == own for x in members):
                continue
            short = t.replace("tiro::", "")
            cls = (f.cls or "").rsplit("::", 1)[-1]
            used = {x.name for x in f.walk() if x.k == "member" and x.name in members and "(anonymous union)" in x.q and x.q.startswith(t + "::")}
            if used:
                rep.check(used == {x for x in members if nrm(x) == own}, "union-dispatch", f.loc, "%s %s::%s" % (short, cls, f.name),
                          "the handler of %s uses the alternative %s" % (f.name[6:], ", ".join(sorted(used))))
            acc = {c.name for c in f.calls() if c.name.startswith("as_") and c.d.get("cls") == t and origin(f, c.obj) is not None and c.obj is not None
                   and "rhs" in (ctx_of(f).path(c.obj) or "")}
            if acc:
                rep.check({nrm(a[3:]) for a in acc} == {own}, "union-dispatch", f.loc, "%s %s::%s" % (short, cls, f.name),
                          "compares with %s" % ", ".join(sorted(acc)))


def assignment(prog, rep, eng, us):
    n = 0
    for t, (en, tag, m, members) in us.items():
        fs = [f for f in prog.fns.values() if f.cls == t]
        if not any(f.name == "_destroy_value" for f in fs):
            continue
        n += 1
        short = t.replace("tiro::", "")
        d = [f for f in fs if f.name.startswith("~")]
        rep.check(bool(d) and all(any(c.name == "_destroy_value" for c in f.calls()) for f in d), "union-assign", d[0].loc if d else "?", short + " destructor",
                  "does not destroy the alternative")
        for f in fs:
            kind = f.name
            if kind in ("_destroy_value", "_move_construct_value", "_move_assign_value"):
                # every alternative has a handler that really does it
                vcls = [g for g in prog.fns.values() if g.q.startswith(f.q) and g.name.startswith("visit_") and g.usr != f.usr]
                by = {nrm(g.name[6:]): g for g in vcls}
                for v, mem in m.items():
                    g = by.get(nrm(mem))
                    if g is None:
                        continue
                    if kind == "_destroy_value":
                        ok = any(x.k == "call" and (x.name.startswith("~") or x.d.get("ck") == "dtor") for x in g.walk()) or \
                            any("dtor" in x.k or x.k == "destroy" for x in g.walk()) or trivially(prog, members[mem])
                    elif kind == "_move_construct_value":
                        ok = any(x.k == "new" for x in g.walk()) and any(x.k == "member" and x.name == mem for x in g.walk())
                    else:
                        ok = any((x.k == "bin" and x.op == "=" or x.k == "call" and x.op == "=") for x in g.walk()) and \
                            any(x.k == "member" and x.name == mem for x in g.walk())
                    rep.check(ok, "union-assign", g.loc, "%s::%s %s" % (short, kind, mem), "the alternative is not handled")
            if f.name == "operator=" and f.params and bare(f.params[0].type) == t:
                g = eng.guards(f)
                mc = [c for c in f.calls() if c.name == "_move_construct_value"]
                ma = [c for c in f.calls() if c.name == "_move_assign_value"]
                de = [c for c in f.calls() if c.name == "_destroy_value"]
                tg = [x for x in f.walk() if x.k == "bin" and x.op == "=" and x.child(0) is not None and x.child(0).name == tag]
                from ..paths import dominates
                what = short + " assignment"
                rep.check(bool(mc) and all(any(dominates(f, a, c) for a in de) for c in mc), "union-assign", f.loc, what + " destroy",
                          "constructs a new alternative without destroying the old one")
                rep.check(bool(tg) and all(any(dominates(f, c, x) or dominates(f, x, c) for x in tg) for c in mc), "union-assign", f.loc, what + " tag",
                          "does not update the tag with the alternative")
                eq = lambda op, st: any(x[0] == "cmp" and x[1] == op and ".type" in x[2] + x[3] for x in Facts(st).f)
                rep.check(all(eq("==", g.at(c)) for c in ma), "union-assign", f.loc, what + " move", "assigns the alternative although the tags differ")
                for x in tg:
                    # the tag is only replaced after the old alternative was destroyed
                    rep.check(all(not dominates(f, x, c) for c in de), "union-assign", f.loc, what + " order", "replaces the tag before the old alternative is destroyed")
    if n < 4:
        raise AnalysisBroken("unions with non trivial alternatives not found")


def trivially(prog, t):
    r = prog.records.get(t)
    return r is None or r.d.get("tdtor")


def body(f, b):
    """the block with the statements of a case label"""
    seen = set()
    while b in f.cfg.blocks and b not in seen:
        seen.add(b)
        blk = f.cfg.blocks[b]
        if blk.elems or len(blk.succ) != 1 or blk.succ[0] < 0:
            break
        b = blk.succ[0]
    return b


def nodes(prog, rep, scope):
    """switches over AstNodeType / ValueType with casts in their cases"""
    for f in scope:
        for sw in switches(f):
            t = switch_enum(prog, sw)
            if t is None:
                continue
            cm = case_map(prog, sw, t)
            names = values(prog, t)
            groups = defaultdict(list)
            for v, b in cm.items():
                groups[body(f, b)].append(v)
            cond = norm(ctx_of(f).path(sw.cond)) if sw.cond is not None else None
            root = None
            if cond:
                root = re.sub(r"(\.(type|which)\(\)|\.type_)$", "", cond)
            for v, b in cm.items():
                if len(groups[body(f, b)]) > 1:
                    continue
                ok = {nrm(x) for x in names[v]} | {nrm("Ast" + x) for x in names[v]}
                what = "%s %s" % (strip_targs(f.q), names[v][0])
                for x in deep(case_nodes(f, sw, cm, v)):
                    if x.k == "cast" and x.type and x.child(0) is not None or x.k == "call" and x.name in ("must_cast", "try_cast", "static_handle_cast"):
                        src = x.child(0) if x.k == "cast" else (x.args[0] if x.args else x.obj)
                        p = norm(ctx_of(f).path(src)) if src is not None else ("this" if x.k == "call" and x.d.get("ck") == "method" else None)
                        if root is None or p != root:
                            continue
                        tt = bare(x.d["ta"][0]) if x.k == "call" and x.d.get("ta") else bare(x.type)
                        if x.k == "cast" and x.d.get("ck") in ("lvalue", "noop", "qual"):
                            continue
                        tn = tt.rsplit("::", 1)[-1]
                        if prog.records.get(tt) is None or tt in ("tiro::vm::Value", "tiro::AstNode") or not is_leaf(prog, t, tt, names):
                            continue
                        rep.check(nrm(tn) in ok or derived_from(prog, t, names[v][0], tt), "node-dispatch", x.loc, what, "the case of %s casts to %s" % (names[v][0], tn))
                    if x.k == "call" and x.name.startswith("visit_") and t == "tiro::AstNodeType" and \
                            any(nrm(x.name[6:]) == nrm(y) for ys in names.values() for y in ys):
                        rep.check(nrm(x.name[6:]) in {nrm(y) for y in names[v]}, "node-dispatch", x.loc, what + " handler", "the case of %s calls %s" % (names[v][0], x.name))
    rep.require("node-dispatch", 250, "node kinds")


def is_leaf(prog, t, tt, names):
    base = tt.rsplit("::", 1)[-1]
    al = {nrm(x) for ns in names.values() for x in ns}
    return nrm(base) in al or nrm(base[3:]) in al and base.startswith("Ast")


def derived_from(prog, t, enumerator, tt):
    pre = "tiro::Ast" if t == "tiro::AstNodeType" else "tiro::vm::"
    own = pre + enumerator
    return own in prog.records and tt in prog.bases_of(own)


def names_unique(prog, rep, scope):
    for f in scope:
        if f.name not in ("to_string", "message", "tiro_kind_str", "tiro_errc_name", "tiro_severity_str") or len(f.params) != 1:
            continue
        t = bare(f.params[0].type)
        if t not in prog.enums:
            continue
        ev = real_values(prog, t)
        tab = table(prog, f, list(ev))
        seen = {}
        for v, r in tab.items():
            nm = ev[v][0]
            if r is None:
                continue
            what = "%s %s" % (t, nm)
            if r == "noreturn":
                rep.bad("names", f.loc, what, "has no name")
                continue
            rep.check(r not in seen, "names", f.loc, what, "has the name %r of %s" % (r, seen.get(r)))
            seen.setdefault(r, nm)
    rep.require("names", 250, "enumerators")


def compare(prog, rep, eng, scope, us):
    for f in scope:
        if f.name != "operator==" or f.ret != "bool":
            continue
        ps = [bare(p.type) for p in f.params]
        if f.cls and len(ps) == 1:
            ps = [f.cls] + ps
        if len(ps) != 2 or ps[0] != ps[1] or ps[0] not in prog.records:
            continue
        t = ps[0]
        short = t.replace("tiro::", "")
        pc = ctx_of(f)
        roots = ["this"] if len(f.params) == 1 else []
        roots += [norm(pc.var_id(p.id)) for p in f.params]
        if t in us:
            en, tag, m, members = us[t]
            vis = [c for c in f.calls() if c.name == "visit"]
            g = eng.guards(f)
            for c in vis:
                ok = any(x[0] == "cmp" and x[1] == "==" and ".type" in x[2] and ".type" in x[3] for x in Facts(g.at(c)).f)
                rep.check(ok, "compare", c.loc, short, "alternatives are compared although the tags may differ")
            for h in scope:
                if h.name.startswith("visit_") and h.q.startswith(f.q + "(") and "EqualityVisitor" in h.q:
                    alt = [x for x in members if nrm(x) == nrm(h.name[6:])]
                    if not alt:
                        continue
                    r = prog.records.get(members[alt[0]])
                    if r is None or not members[alt[0]].startswith(t + "::"):
                        continue
                    fields(prog, rep, h, [norm(ctx_of(h).var_id(h.params[0].id)), None], r, "%s %s" % (short, h.name))
            continue
        r = prog.records[t]
        if not r.fields or any(not x["n"] for x in r.fields):
            continue
        deleg = [c for c in f.calls() if sum(1 for x in c.args + [c.obj] if x is not None and norm(pc.path(x)) in roots) >= 2]
        rep.check(bool(deleg) or any(n.op in ("==", "!=", "<=>") for n in f.walk()) or any(c.name in ("equal", "compare", "memcmp", "strcmp") for c in f.calls()),
                  "compare", f.loc, short + " result", "does not depend on the fields")
        fields(prog, rep, f, roots, r, short)
    rep.require("compare", 30, "comparisons")


def fields(prog, rep, f, roots, r, what):
    """pairs x.f == y.f"""
    pc = ctx_of(f)
    got = set()
    for n in f.walk():
        a = b = None
        if n.k == "bin" and n.op in ("==", "!="):
            a, b = n.child(0), n.child(1)
        elif n.k == "call" and n.d.get("ck") == "op" and n.op in ("==", "!=") or n.k == "call" and n.name in ("operator==", "operator!="):
            xs = ([n.obj] if n.obj is not None else []) + n.args
            if len(xs) >= 2:
                a, b = xs[0], xs[1]
        if a is None:
            continue
        fa, fb = suffix(pc, a), suffix(pc, b)
        if fa is None or fb is None:
            continue
        rep.check(fa == fb, "compare", n.loc, what, "compares %s with %s" % (fa, fb))
        got.add(nrm(fa))
    if got:
        names = {nrm(x["n"]) for x in r.fields}
        if got & names:
            miss = [x["n"] for x in r.fields if nrm(x["n"]) not in got]
            rep.check(not miss, "compare", f.loc, what + " fields", "does not compare %s" % ", ".join(miss))


def suffix(pc, n):
    p = norm(pc.path(n))
    if p is None:
        return None
    m = re.match(r"^(?:this|[A-Za-z_0-9]+@\d+:\d+|this\.rhs\.as_\w+\(\))\.([A-Za-z_0-9]+)(\(\))?$", p)
    return m.group(1) if m else None
