"""The module registry is executed by an abstract interpreter from each state of its resolution loop, for modules with two members that are imports or not,
imported modules that are initialized or not and initializers that exist, fail or succeed. Rules: dependencies-first: the initializer runs only after
every import was linked. link: an import is linked only to an initialized module, at its own position. init-once: the initializer runs at most once per
visit, on modules that are not initialized, and the module is marked exactly when it succeeded or there is none. cycles: a module entered twice is an error,
and the set of active modules is kept while a module is open. progress: every step either opens an imported module or completes the current one.
handed-out: modules are handed out only after their resolution. init-callers: initializers are run and modules are marked only by the registry.
run-init: running an initializer starts one coroutine, requires that it completed and returns its result. cached: names are registered once."""
from ..absint import V, integer, obj
from ..facts import AnalysisBroken
from ..scenario import Scenario, yes
from ..util import chk, fns, home, one, rules, this, users

T = "tiro::vm::"
BOTH = [yes(True), yes(False)]
REG = T + "ModuleRegistry::"


def run(prog, rep):
    rules(rep, __doc__)
    resolution(prog, rep)
    handed_out(prog, rep)
    callers(prog, rep)
    run_init(prog, rep)


def resolution(prog, rep):
    f = one(prog, REG + "resolve_module")
    frame = V("o", ty="Frame", path="frame")
    state_enum = [e for q, e in prog.enums.items() if {"Enter", "Dependencies", "Init", "Exit"} <= {n for n, _ in e["c"]}]
    if not state_enum:
        raise AnalysisBroken("the states of the resolution loop were not found")
    states = {n: int(v) for n, v in state_enum[0]["c"]}

    def is_stack(n, o):
        return n.obj is not None and "Frame" in (n.obj.type or "")

    for name, val in states.items():
        def empty(n, o, av, st):
            if not is_stack(n, o):
                return None
            k = st.mem.get(("rounds",), 0)
            st.mem[("rounds",)] = k + 1
            return yes(k > 0)

        def back(n, o, av, st):
            if not is_stack(n, o):
                return None
            if (frame.id, "state_") not in st.mem:
                st.mem[(frame.id, "state_")] = integer(val, val)
                st.mem[(frame.id, "next_member_")] = integer(0, 0)
                st.mem[(frame.id, "total_members_")] = integer(2, 2)
            return frame
        fixed = {"empty": empty, "back": back, "initialized": lambda n, o, av, st: None if av else BOTH, "is": BOTH, "is_error": BOTH, "is_null": BOTH,
                 "find_module": lambda n, o, av, st: [obj("FOUND")], "contains": BOTH}
        watch = ("initialized", "find_module", "emplace_back", "push_back", "pop_back", "run_init", "is_error", "unchecked_set", "set_unchecked", "checked_set", "is", "get",
                 "set", "remove", "initializer", "is_null", "value", "back")
        sc = Scenario(prog, fixed=fixed, watch=watch, peel=8, maxpaths=20000)
        done = 0
        for v, ev, st in sc.run(f):
            idx = [i for i, e in enumerate(ev) if e[0] == "back"]
            pre = ev[:idx[0]] if idx else ev
            first = [e for e in pre if e[0] == "initialized"]
            chk(rep, "init-once", f, first and first[0][1] == "module" and not any(e[0] in ("run_init",) for e in pre), "the module's state is not tested first", "first")
            if not idx:
                chk(rep, "progress", f, any(e[3] == "true" for e in first), "a module that is not initialized is left unresolved", "skipped")
                continue
            chk(rep, "init-once", f, all(e[3] == "false" for e in first), "an initialized module is resolved again", "again")
            done += 1
            ev = [e for e in ev[idx[0]:] if e[0] != "back"]
            ev = ev[1:] if ev and ev[0][0] == "initialized" and not ev[0][2] and ev[0][1] == "frame.module_" else ev
            names = [e[0] for e in ev]
            # cycle detection
            if name == "Enter":
                get = [i for i, n in enumerate(names) if n == "get"]
                put = [i for i, e in enumerate(ev) if e[0] == "set"]
                chk(rep, "cycles", f, get and put and get[0] < put[0] and sc.truth(st, ev[get[0]][3]) is not True, "a module is opened without testing whether it is open already", "enter")
                later = [i for i, n in enumerate(names) if n in ("find_module", "run_init", "emplace_back")]
                chk(rep, "cycles", f, put and (not later or put[0] < min(later)), "a module is not registered before its imports", "registered")
            # members
            cur, kinds, linked, pushed = None, {}, {}, False
            for i, e in enumerate(ev):
                if e[0] == "is":
                    p = e[1]
                    cur = 0 if "(0)" in p else 1 if "(1)" in p else None
                    kinds[cur] = e[3] == "true"
                elif e[0] == "initialized" and not e[2]:
                    last = e[3]
                elif e[0] in ("unchecked_set", "set_unchecked", "checked_set"):
                    linked[e[2][0]] = i
                    prior = [j for j, x in enumerate(ev[:i]) if x[0] == "initialized" and not x[2]]
                    found = [j for j, x in enumerate(ev[:i]) if x[0] == "find_module"]
                    chk(rep, "link", f, found and prior and ev[prior[-1]][3] == "true" and prior[-1] > found[-1],
                        "an import is linked although the imported module may not be initialized", "initialized")
                    chk(rep, "link", f, e[2] == (str(cur), "FOUND") and kinds.get(cur), "an import is linked to another module or position", "position")
                elif e[0] in ("emplace_back", "push_back"):
                    pushed = True
                    prior = [x for x in ev[:i] if x[0] == "initialized" and not x[2]]
                    chk(rep, "progress", f, prior and prior[-1][3] == "false", "a module that is initialized is opened again", "open")
            marks = [i for i, e in enumerate(ev) if e[0] == "initialized" and e[2]]
            runs = [i for i, n in enumerate(names) if n == "run_init"]
            pops = [i for i, n in enumerate(names) if n == "pop_back"]
            chk(rep, "progress", f, pushed != bool(pops) and len(pops) <= 1, "a step neither opens an imported module nor completes the current one", name)
            if name in ("Enter", "Dependencies"):
                complete = all(k in kinds and (not kinds[k] or str(k) in linked) for k in (0, 1))
                for r in runs:
                    chk(rep, "dependencies-first", f, complete and all(linked[str(k)] < r for k in (0, 1) if kinds[k]), "the initializer runs before all imports are linked", name)
                for r in marks + pops:
                    chk(rep, "dependencies-first", f, complete, "a module is completed before all imports are linked", name + " completed")
            if name != "Exit" and pops:
                chk(rep, "init-once", f, len(marks) == 1 and ev[marks[0]][2] == ("true",) and ev[marks[0]][1] == "frame.module_" and marks[0] < pops[0],
                    "a completed module is not marked as initialized", "marked")
                null = [e for e in ev if e[0] == "is_null" and "initializer" in e[1] or e[0] == "has_value" and "initializer" in e[1]]
                ran = null and (null[-1][3] == "false") == (null[-1][0] == "is_null")
                chk(rep, "init-once", f, null and len(runs) == (1 if ran else 0), "the initializer runs %d times" % len(runs), "runs")
                if runs:
                    err = [(i, e) for i, e in enumerate(ev) if e[0] == "is_error"]
                    chk(rep, "init-once", f, err and err[-1][1][3] == "false" and runs[0] < err[-1][0] < marks[0], "a module is marked although its initializer may have failed", "failed")
            if pushed:
                chk(rep, "init-once", f, not marks and not runs, "a module is completed while an import is pending", "pending")
            if pops:
                rem = [i for i, e in enumerate(ev) if e[0] == "remove"]
                chk(rep, "cycles", f, len(rem) == 1, "a completed module stays registered as open", "removed")
        chk(rep, "progress", f, done > 0, "state %s is never left" % name, "state " + name)
    fr = [g for g in prog.fns.values() if g.cfg is not None and g.relfile == f.relfile and g.kind == "ctor" and g.name == "Frame"]
    for g in fr:
        inits = [n for n in g.nodes if n and n.k == "call" and n.name == "members"]
        chk(rep, "dependencies-first", g, inits, "the number of members is not taken from the module", "members")


def handed_out(prog, rep):
    f = one(prog, REG + "get_module")

    def known(n, o, av, st):
        p = sc.path(o, st)
        return yes("FOUND" in p) if "FOUND" in p or "MISSING" in p else None
    sc = Scenario(prog, fixed={"find_module": [obj("FOUND"), obj("MISSING")], "operator bool": known, "has_value": known}, watch=("find_module", "resolve_module"), follow=lambda t: False)
    got = 0
    for v, ev, st in sc.run(f):
        if ev and ev[0][0] == "find_module" and ev[0][3] == "MISSING" or sc.path(v, st) == "std::nullopt":
            chk(rep, "handed-out", f, not any(e[0] == "resolve_module" for e in ev), "a missing module is resolved", "missing")
            continue
        got += 1
        chk(rep, "handed-out", f, any(e[0] == "resolve_module" for e in ev), "a module is handed out without being resolved", "resolve")
    chk(rep, "handed-out", f, got > 0, "modules are never handed out", "some")
    for q in ("find_module",):
        for g, n in users(prog, REG + q):
            h = home(prog, g)
            chk(rep, "handed-out", n, h.q in (REG + "get_module", REG + "resolve_module"), "%s uses a module without resolving it" % h.name, h.name)
    a = one(prog, REG + "add_module")
    sc = Scenario(prog, fixed={"contains": BOTH}, watch=("contains", "set"), follow=lambda t: False)
    for v, ev, st in sc.run(a):
        ok = sc.path(v, st)
        sets = [e for e in ev if e[0] == "set"]
        has = [e for e in ev if e[0] == "contains"]
        chk(rep, "cached", a, has and (has[0][3] == "true") == (ok == "false") and len(sets) == (0 if ok == "false" else 1), "a registered module is replaced or a new one is not registered", "add")


def callers(prog, rep):
    allowed = {T + "Module::initialized": {REG + "resolve_module"}, T + "Context::run_init": {REG + "resolve_module"}}
    n = 0
    for f, c in users(prog, T + "Module::initialized", True) + users(prog, T + "Context::run_init"):
        h = home(prog, f)
        n += 1
        # modules built by the host or a builtin have no initializer and no imports
        built = c.name == "initialized" and any(x.q == T + "Module::make" for x in f.calls()) and not any(x.q == T + "Module::initializer" for x in f.calls())
        chk(rep, "init-callers", c, built or h.q == REG + "resolve_module", "%s calls %s" % (h.q, c.name), "%s %s" % (h.name, c.name))
    for f, c in users(prog, T + "Module::initializer", False):
        h = home(prog, f)
        n += 1
        chk(rep, "init-callers", c, h.q == REG + "resolve_module" or h.q.startswith(T + "Module::"), "%s uses the initializer of a module" % h.q, "%s %s" % (h.name, c.name))
    if n < 3:
        raise AnalysisBroken("only %d uses of module initializers found" % n)


def run_init(prog, rep):
    f = one(prog, T + "Context::run_init")
    done = dict((k, int(v)) for k, v in prog.enums[T + "CoroutineState"]["c"])
    states = [integer(v, v, T + "CoroutineState") for v in done.values()]
    sc = Scenario(prog, fixed={"state": states}, watch=("make_coroutine", "start", "run_ready", "state", "result"), follow=lambda t: False)
    n = 0
    for v, ev, st in sc.run(f):
        n += 1
        names = [e[0] for e in ev]
        ok = [x for x in names if x != "result"][:4] == ["make_coroutine", "start", "run_ready", "state"]
        chk(rep, "run-init", f, ok and ev[0][2] == ("func", "args"), "the initializer is not run to completion once", "order")
        last = [e for e in ev if e[0] == "state"]
        chk(rep, "run-init", f, last and last[-1][3] == str(done["Done"]), "the result of an initializer that did not complete is used", "done")
        chk(rep, "run-init", f, "result" in sc.path(v, st), "the result of the initializer is not returned", "result")
    chk(rep, "run-init", f, n > 0, "initializers never complete", "some")
