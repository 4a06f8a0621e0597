"""C18: no writable data outside of the objects handed out to the embedding program.
Rule `no-writable-global`: every variable with static or thread storage duration declared in /repo/src or /repo/include
(namespace scope, static members, function local statics) is constant, and so are the objects it points to;
rule `no-mutable-member-in-global`: the type of such a constant has no mutable member declared in the repository."""


MUTABLE_OK = ()


def run(prog, rep):
    rep.rule("no-writable-global", "every variable with static storage duration is const or constexpr")
    rep.rule("no-mutable-member-in-global", "the type of a static constant has no mutable member and is no pointer to writable data")
    for v in sorted(prog.vars.values(), key=lambda v: (v["f"], v["l"])):
        loc = "%s:%d" % (prog.rel(v["f"]), v["l"])
        const = v["const"] or v["cx"]
        what = "thread local" if v["tls"] else "function local static" if v["local"] else "global"
        if not rep.check(const, "no-writable-global", loc, v["q"],
                         "%s variable of type '%s' is writable and shared by all instances in the process" % (what, v["t"])):
            continue
        t = v["t"]
        bad = None
        # pointer to non-const data, reference to non-const data
        base = t.replace("const", "").strip()
        if t.endswith("&") and not t.startswith("const ") and "(" not in t:
            bad = "reference to writable data"
        if t.rstrip().endswith("*const") or t.rstrip().endswith("*"):
            pointee = t.rsplit("*", 1)[0].strip()
            if not pointee.startswith("const ") and not pointee.endswith("const") and "(" not in t:
                bad = "pointer to writable data"
        seen = set()

        def mutable(ty):
            ty = ty.replace("const ", "").strip()
            if ty in seen:
                return None
            seen.add(ty)
            r = prog.records.get(ty)
            if not r:
                return None
            for f in r.fields:
                if f.get("mut"):
                    return "%s::%s" % (r.q, f["n"])
                m = mutable(f["t"])
                if m:
                    return m
            for b in r.bases:
                m = mutable(b)
                if m:
                    return m
            return None
        m = mutable(t)
        if m:
            bad = "type has mutable member " + m
        if t.replace("const ", "").startswith(("std::atomic", "std::mutex", "std::once_flag", "std::unique_ptr", "std::shared_ptr")):
            bad = "shared synchronisation or ownership state"
        rep.check(bad is None, "no-mutable-member-in-global", loc, v["q"], str(bad))
    rep.require("no-writable-global", 100, "static variables")
    # who-may-call: functions of the C library with process wide state
    rep.rule("no-process-global-libc", "no call to a C library function that reads or changes process wide mutable state")
    banned = {"strtok", "rand", "srand", "random", "srandom", "setenv", "putenv", "unsetenv", "setlocale", "signal", "atexit",
              "tmpnam", "asctime", "ctime", "gmtime", "localtime", "strerror", "std::rand", "std::srand", "std::setlocale",
              "std::strtok", "std::signal", "std::atexit", "std::set_new_handler", "std::set_terminate", "chdir", "drand48",
              "std::locale::global", "std::at_quick_exit"}
    n = 0
    for f in prog.fns.values():
        if f.relfile.startswith("src/run/"):
            continue
        for c in f.calls():
            n += 1
            if c.q in banned:
                rep.bad("no-process-global-libc", c.loc, "%s calls %s" % (f.q, c.q), "process wide state is shared by all instances")
    rep.counts["no-process-global-libc"] += 1
    rep.discharged["no-process-global-libc"] += 0 if any(v["rule"] == "no-process-global-libc" for v in rep.violations) else 1
    rep.samples["no-process-global-libc"].append("%d call sites inspected" % n)
