"""C12: may-throw effect analysis over the call graph. Rule `api-nothrow`: in every function with C linkage of the API, in every function
whose address is handed out as a C callback, and in every noexcept function of the API layer, each element that may throw (throw, new,
calls of functions that may throw, external calls without noexcept, indirect calls) lies in a try block with a catch-all handler.
Elements inside of debug assertions are ignored."""
from ..effects import Throws


def run(prog, rep):
    rep.rule("api-nothrow", "no element that may throw outside of a catch-all try block in a C API function, a C callback or a noexcept API function")
    T = Throws(prog)
    entries = {}
    for f in prog.fns.values():
        if not f.relfile.startswith(("src/api/", "include/")):
            continue
        if f.flag("xc"):
            entries[f.usr] = (f, "C function")
        elif f.flag("nx") and not f.flag("dtor") and f.relfile.startswith("src/api/"):
            entries[f.usr] = (f, "noexcept function of the API layer")
    # functions whose address escapes
    for f in list(prog.fns.values()) + list(prog.inits.values()):
        if not f.relfile.startswith(("src/api/", "include/")):
            continue
        for n in f.walk():
            if n.k != "fnref":
                continue
            p = n.parent
            while p is not None and p.k in ("cast", "un"):
                p = p.parent
            t = prog.fns.get(n.d.get("u"))
            if t is None or t.usr in entries or not t.relfile.startswith(("src/api/", "include/")):
                continue
            if p is None and f.usr in prog.fns and not n.parent:
                # callee position
                continue
            if t.cls and not t.flag("st"):
                continue
            entries[t.usr] = (t, "C callback")
    for f in prog.fns.values():
        if f.relfile.startswith(("src/api/", "include/tiropp")) and f.flag("lam") and f.outer is not None:
            # captureless lambdas that are converted to a C function pointer
            of = f.outer
            for n in of.walk():
                if n.k == "lambda" and n.d["u"] == f.usr and not n.d.get("caps"):
                    p = n.parent
                    conv = False
                    hops = 0
                    while p is not None and hops < 6:
                        if p.k == "call" and p.name.startswith("operator ") and "*" in p.type:
                            conv = True
                            break
                        if p.k not in ("cast", "call", "un", "decl", "bin"):
                            break
                        p = p.parent
                        hops += 1
                    if conv:
                        entries[f.usr] = (f, "C callback")
    import re
    n = 0
    for f, why in entries.values():
        bad = 0
        name = re.sub(r"\(lambda at [^)]*\)", "(lambda)", f.full)
        sites = list(T.sites(f))
        for s, kind, _ in sites:
            r = T.site_throws(s)
            if r:
                bad += 1
                path = []
                for t in (prog.targets(s) if s.k == "call" else []):
                    if t.usr in T.why:
                        path = T.chain(t.usr)
                        break
                rep.bad("api-nothrow", s.loc, "%s: %s" % (name, s.q or s.k), "%s: %s may throw and is not enclosed in a catch-all handler" % (why, r), path)
        if not bad:
            rep.ok("api-nothrow", "%s (%s): %d unprotected elements, none can throw" % (f.q, why, len(sites)))
    rep.require("api-nothrow", 120, "C API functions")
    rep.note("%d of %d functions of the program may let an exception escape" % (len(T.why), len(prog.fns)))
    kinds = {}
    for f, why in entries.values():
        kinds[why] = kinds.get(why, 0) + 1
    rep.note("entries: %r" % kinds)
    if kinds.get("C callback", 0) < 3:
        from ..facts import AnalysisBroken
        raise AnalysisBroken("only %d C callbacks found" % kinds.get("C callback", 0))
