"""Unwinding in the interpreter and the generation of handlers and deferred expressions in the compiler are executed by an abstract interpreter.
Rules: frames: returning removes exactly one frame and either delivers the value to the caller or completes the coroutine. unwind: unwinding asks each
frame once, continues in the first one that handles the error, removes exactly the others and fails the coroutine if none is left. handle: a function's handler
is looked up at the instruction that failed and becomes active together with the error, which is kept if another one is raised meanwhile. kinds: functions and panic
catching calls may handle errors, native functions do not. catch: catching delivers the panic as an error and everything else as a success. pop: removing a
frame removes its arguments and the additional value. lookup: the handler table is searched for the interval that contains the instruction. calls: every
call checks the number of arguments, pushes one frame of the callee's kind, and fails otherwise. rethrow: the original error is raised again at the end of a
handler. exit-order: leaving a scope evaluates its deferred expressions in reverse order, each one protected by the handler that was active before it. exit-handler: the
active handler is restored when a scope is left, and kept after code that jumps out of it. defer: a deferred expression is compiled as a handler that
rethrows and registered for the normal exit. jumps: break, continue, return and the end of a block evaluate the deferred expressions of exactly the
scopes they leave. table: blocks carry the active handler into the handler table."""
from ..absint import State, V, integer, nonnull, null, obj
from ..facts import AnalysisBroken
from ..flow import only_if
from ..scenario import Scenario, yes
from ..util import chk, fns, home, one, rules, this, users, values

T = "tiro::vm::"
G = "tiro::ir::"
BOTH = [yes(True), yes(False)]
NO = staticmethod(lambda t: False)


def nofollow(t):
    return False


def run(prog, rep):
    rules(rep, __doc__)
    vm(prog, rep)
    handle(prog, rep)
    catch(prog, rep)
    calls(prog, rep)
    compiler(prog, rep)


def flags(prog):
    for q, e in prog.enums.items():
        d = {k: int(v) for k, v in e["c"]}
        if "FRAME_UNWINDING" in d:
            return d
    raise AnalysisBroken("the flags of frames were not found")


def events(ev, *names):
    return [e for e in ev if e[0] in names]


def names(ev, *which):
    return [e[0] for e in ev if e[0] in which]


def frame(st, name="frame", **fields):
    f = nonnull(name, T + "CoroutineFrame", "o")
    for k, v in fields.items():
        st.mem[(f.id, k)] = integer(v, v) if isinstance(v, int) else v
    return f


def vm(prog, rep):
    states = values(prog, T + "CoroutineState")
    running = lambda n, o, av, st: None if av else [integer(states["Running"], states["Running"], T + "CoroutineState")]  # noqa: E731
    W = ("state", "result", "pop_frame", "push_value", "must_push_value", "unwind_into", "make_success", "make_error", "top_frame")
    f = one(prog, T + "Interpreter::return_function")
    for left in (True, False):
        sc = Scenario(prog, fixed={"state": running, "top_frame": nonnull("CALLER") if left else null(), "push_value": yes(True), "value_capacity_remaining": integer(1, 1)}, watch=W, follow=nofollow)
        outs = sc.run(f, this=this("vm::Interpreter"))
        chk(rep, "frames", f, outs, "functions do not return", "return:%s" % left)
        for v, ev, st in outs:
            p = events(ev, "pop_frame")
            push = events(ev, "push_value", "must_push_value")
            done = [e for e in events(ev, "state") if e[2]]
            res = [e for e in events(ev, "result") if e[2]]
            chk(rep, "frames", f, len(p) == 1, "returning removes %d frames" % len(p), "one")
            if left:
                chk(rep, "frames", f, len(push) == 1 and push[0][2][-1] == f.params[1].name and not done and not res and ev.index(push[0]) > ev.index(p[0]) if p else False,
                    "the value is not delivered to the caller", "deliver")
            else:
                mk = events(ev, "make_success")
                ok = not push and len(done) == 1 and len(res) == 1 and len(mk) == 1 and res[0][2][-1] == mk[0][3] and not events(ev, "make_error") and done[0][2] == (str(states["Done"]),)
                chk(rep, "frames", f, ok, "the coroutine does not complete with the value returned by its function", "complete")
    # unwinding
    f = one(prog, T + "Interpreter::unwind")
    for depth in range(4):
        for handler in list(range(depth)) + [None]:
            def top(n, o, av, st, depth=depth):
                k = len([e for e in st.mem.get(("ev",), ()) if e[0] == "pop_frame"])
                return nonnull("F%d" % k) if k < depth else null()

            def into(n, o, av, st, handler=handler):
                k = len([e for e in st.mem.get(("ev",), ()) if e[0] == "pop_frame"])
                return yes(k == handler)
            sc = Scenario(prog, fixed={"state": running, "top_frame": top, "unwind_into": into}, watch=W, follow=nofollow, peel=6)
            outs = sc.run(f, this=this("vm::Interpreter"))
            key = "%d:%s" % (depth, handler)
            chk(rep, "unwind", f, outs, "unwinding does not end", key)
            for v, ev, st in outs:
                seq = names(ev, "unwind_into", "pop_frame")
                want = (["unwind_into", "pop_frame"] * (handler if handler is not None else depth)) + (["unwind_into"] if handler is not None else [])
                chk(rep, "unwind", f, seq == want, "with %d frames and a handler in %s: %s" % (depth, handler, ", ".join(seq)), key)
                asked = [e[2][1] for e in events(ev, "unwind_into") if len(e[2]) > 1]
                chk(rep, "unwind", f, asked == ["F%d" % i for i in range(len(asked))], "the wrong frames are asked", key + ":asked")
                done = [e for e in events(ev, "state") if e[2]]
                res = [e for e in events(ev, "result") if e[2]]
                if handler is None:
                    mk = events(ev, "make_error")
                    ok = len(done) == 1 and len(res) == 1 and len(mk) == 1 and res[0][2][-1] == mk[0][3] and done[0][2] == (str(states["Done"]),) and not events(ev, "make_success") and f.params[1].name in mk[0][2][-1]
                    chk(rep, "unwind", f, ok, "the coroutine does not fail with the error", key + ":fail")
                else:
                    chk(rep, "unwind", f, not done and not res, "the coroutine ends although a frame handles the error", key + ":continue")
    fl = flags(prog)
    # kinds of frames
    f = one(prog, T + "Interpreter::unwind_into")
    kinds = values(prog, T + "FrameType")
    for kind, val in kinds.items():
        for handled in (True, False):
            st0 = State()
            fr = frame(st0, type=integer(val, val, T + "FrameType"), flags=fl["FRAME_CATCH_STARTED"], argc=1)
            sc = Scenario(prog, fixed={"handle_exception": yes(handled), "static_not_null_cast": fr, "operator->": lambda n, o, av, st: None}, watch=("handle_exception",), follow=nofollow)
            outs = sc.run(f, [None, fr, None], this("vm::Interpreter"), st0)
            chk(rep, "kinds", f, outs, "errors cannot be raised in a %s frame" % kind, kind)
            for v, ev, st in outs:
                p = sc.path(v, st)
                asked = events(ev, "handle_exception")
                if kind == "Code":
                    chk(rep, "kinds", f, len(asked) == 1 and p == str(handled).lower(), "the outcome of a function's handler is ignored", "Code:%s" % handled)
                elif kind == "Catch":
                    x = st.mem.get((fr.id, "flags"))
                    fx = sc.it.decide(sc.it.observe("x", "bool"), st) if False else None
                    val2 = x.lo if x is not None and x.kind == "i" and x.lo == x.hi else None
                    ex = st.mem.get((fr.id, "exception"))
                    chk(rep, "kinds", f, p == "true" and val2 is not None and val2 & fl["FRAME_UNWINDING"] and val2 & fl["FRAME_CATCH_STARTED"], "a catching frame does not stop the error", "Catch")
                    stored = ex is not None and f.params[2].name in sc.path(ex, st) or any("exception" in str(k) for k in st.mem)
                    chk(rep, "kinds", f, stored, "a catching frame does not keep the error", "Catch:store")
                else:
                    chk(rep, "kinds", f, p == "false" and not asked, "a %s frame stops the error" % kind, kind)
    # removing frames
    f = one(prog, T + "Interpreter::pop_frame")
    for more in (True, False):
        for argc in (0, 2):
            st0 = State()
            fr = frame(st0, argc=argc, flags=fl["FRAME_POP_ONE_MORE"] if more else 0)
            sc = Scenario(prog, fixed={"top_frame": fr}, watch=("pop_frame", "pop_values", "pop_value"), follow=nofollow)
            outs = sc.run(f, [None], this("vm::Interpreter"), st0)
            chk(rep, "pop", f, outs, "frames cannot be removed", "pop")
            for v, ev, st in outs:
                a, b = events(ev, "pop_frame"), events(ev, "pop_values", "pop_value")
                n = sum(int(e[2][-1]) if e[2] and e[2][-1].isdigit() else 1 if e[0] == "pop_value" else -99 for e in b)
                chk(rep, "pop", f, len(a) == 1 and n == argc + (1 if more else 0) and all(ev.index(a[0]) < ev.index(e) for e in b),
                    "a frame with %d arguments%s removes %d values" % (argc, " and an additional value" if more else "", n), "%d:%s" % (argc, more))


def handle(prog, rep):
    fl = flags(prog)
    f = one(prog, T + "BytecodeInterpreter::handle_exception")
    if len(f.params) != 3:
        raise AnalysisBroken("the parameters of handle_exception changed")
    for unwinding in (True, False):
        for table in (True, False):
            for found in (True, False):
                for pc in (0, 5):
                    st0 = State()
                    fr = frame(st0, flags=fl["FRAME_UNWINDING"] if unwinding else 0)
                    st0.mem[(fr.id, "pc")] = integer(pc, pc)
                    entry = nonnull("ENTRY", T + "HandlerTable::Entry", "o")
                    st0.mem[(entry.id, "target")] = integer(9, 9)
                    sc = Scenario(prog, fixed={"handlers": obj("TABLE"), "has_value": lambda n, o, av, st: yes(table) if "TABLE" in sc.path(o, st) else yes(True),
                                               "operator bool": lambda n, o, av, st: yes(table) if "TABLE" in sc.path(o, st) else yes(True),
                                               "is_null": lambda n, o, av, st: yes(not table) if "TABLE" in sc.path(o, st) else yes(False),
                                               "find_entry": entry if found else null(), "size": integer(100, 100), "begin": integer(0, 0), "data": integer(0, 0)},
                                  watch=("find_entry", "add_secondary", "set", "operator="), follow=nofollow)
                    outs = sc.run(f, [None, fr, None], None, st0)
                    key = "%s:%s:%s" % (unwinding, table, found)
                    chk(rep, "handle", f, outs, "an error cannot be handled", key)
                    for v, ev, st in outs:
                        sec, look = events(ev, "add_secondary"), events(ev, "find_entry")
                        keep = [e for e in events(ev, "set", "operator=") if e[1] == f.params[2].name]
                        p = sc.path(v, st)
                        chk(rep, "handle", f, p == str(table and found).lower(), "the search for a handler has the wrong outcome", key)
                        chk(rep, "handle", f, len(look) == (1 if table else 0), "the handler table is not searched once", key + ":table")
                        for e in look:      # the program counter is behind the instruction that failed
                            chk(rep, "handle", f, e[2][-1] == str(max(pc - 1, 0)), "the handler of the wrong instruction is used", key + ":pc")
                        if unwinding:
                            chk(rep, "handle", f, len(sec) == 1 and "current_exception" in sec[0][1] and keep and "current_exception" in keep[0][2][-1] and ev.index(sec[0]) < ev.index(keep[0]),
                                "an error raised while another one is handled replaces it", key + ":secondary")
                        else:
                            chk(rep, "handle", f, not sec and not [e for e in keep], "a first error is replaced", key + ":first")
                        x = st.mem.get((fr.id, "flags"))
                        on = x is not None and x.kind == "i" and x.lo == x.hi and x.lo & fl["FRAME_UNWINDING"]
                        ce = st.mem.get((fr.id, "current_exception"))
                        if table and found:
                            chk(rep, "handle", f, on, "the function is not marked while it handles an error", key + ":mark")
                            stored = ce is not None or any(e[1].endswith("current_exception") for e in events(ev, "operator=", "set"))
                            chk(rep, "handle", f, stored, "the handled error is not kept", key + ":keep")
                            npc = st.mem.get((fr.id, "pc"))
                            chk(rep, "handle", f, npc is not None and sc.path(npc, st) == "9", "the function does not continue in its handler", key + ":jump")
    f = one(prog, T + "HandlerTable::find_entry")
    for end in (True, False):
        for start in (3, 5, 8):
            inside = start <= 5
            e = nonnull("@POS", T + "HandlerTable::Entry", "o")
            st0 = State()
            st0.mem[(e.id, "from")] = integer(start, start)
            st0.mem[(e.id, "to")] = integer(10, 10)
            sc = Scenario(prog, fixed={"upper_bound": e, "std::upper_bound": e, "end": e if end else nonnull("@END"), "lower_bound": V("v")}, watch=("upper_bound",), follow=nofollow)
            outs = sc.run(f, [integer(5, 5)], this("vm::HandlerTable"), st0)
            chk(rep, "lookup", f, outs, "handlers cannot be found", "%s:%s" % (end, inside))
            for v, ev, st in outs:
                p = sc.path(v, st)
                chk(rep, "lookup", f, (p == "@POS") == (not end and inside) and (p == "@POS" or p in ("null", "nullptr")), "the handler table returns %s for an instruction %s the interval" % (p, "in" if inside else "before"), "%s:%s" % (end, inside))
    cmp = [g for g in prog.fns.values() if g.cfg is not None and g.name == "operator()" and home(prog, g) is f]
    for g in cmp:
        for to in (4, 5, 6):
            r = V("o", ty=T + "HandlerTable::Entry", path="rhs")
            st0 = State()
            st0.mem[(r.id, "to")] = integer(to, to)
            st0.mem[(r.id, "from")] = integer(0, 0)
            sc = Scenario(prog, follow=nofollow)
            ints = [integer(5, 5) if "Entry" not in (p.type or "") else r for p in g.params]
            for v, ev, st in sc.run(g, ints, None, st0):
                chk(rep, "lookup", g, sc.path(v, st) == str(5 < to).lower(), "intervals are compared wrongly: the end is exclusive", "end:%d" % to)


def catch(prog, rep):
    fl = flags(prog)
    f = [g for g in fns(prog, T + "Interpreter::run_frame") if any("CatchFrame" in (p.type or "") for p in g.params)]
    if not f:
        raise AnalysisBroken("the execution of catching frames was not found")
    f = f[0]
    states = values(prog, T + "CoroutineState")
    kinds = values(prog, T + "FrameType")
    for started, unwinding in ((False, False), (True, False), (True, True)):
        st0 = State()
        fr = frame(st0, type=integer(kinds["Catch"], kinds["Catch"], T + "FrameType"), argc=1, flags=(fl["FRAME_CATCH_STARTED"] if started else 0) | (fl["FRAME_UNWINDING"] if unwinding else 0))
        sc = Scenario(prog, fixed={"top_frame": fr, "state": lambda n, o, av, st: None if av else [integer(states["Running"], states["Running"], T + "CoroutineState")], "top_value_count": integer(1, 1),
                                   "has_value": yes(unwinding), "is_null": yes(not unwinding)},
                      watch=("call_function", "return_function", "make_error", "make_success", "arg", "top_value", "unwind"), follow=nofollow)
        outs = sc.run(f, [None, fr], this("vm::Interpreter"), st0)
        key = "%s:%s" % (started, unwinding)
        chk(rep, "catch", f, outs, "catching frames are not run", key)
        for v, ev, st in outs:
            seq = names(ev, "call_function", "return_function", "make_error", "make_success", "unwind")
            if not started:
                x = st.mem.get((fr.id, "flags"))
                ok = seq == ["call_function"] and x is not None and x.kind == "i" and x.lo == x.hi and x.lo & fl["FRAME_CATCH_STARTED"]
                c = events(ev, "call_function")
                a = events(ev, "arg")
                ok = ok and c[0][2][-1] == "0" and a and a[0][2][-1] == "0"
                chk(rep, "catch", f, ok, "the function is not called once", key)
            else:
                want = ["make_error" if unwinding else "make_success", "return_function"]
                chk(rep, "catch", f, seq == want, "a call that %s ends with: %s" % ("panicked" if unwinding else "returned", ", ".join(seq)), key)
                if seq == want:
                    mk, ret = events(ev, want[0])[0], events(ev, "return_function")[0]
                    src = "exception" in mk[2][-1] if unwinding else any(e[3] in mk[2][-1] for e in events(ev, "top_value")) or "top_value" in mk[2][-1]
                    chk(rep, "catch", f, ret[2][-1] == mk[3] and src, "the outcome of the call is not delivered", key + ":value")


def calls(prog, rep):
    f = one(prog, T + "Interpreter::enter_function")
    types = values(prog, T + "ValueType")
    fl = flags(prog)
    PUSH = ("push_user_frame", "push_resumable_frame", "push_catch_frame")
    W = PUSH + ("unwind", "set", "reserve_values", "must_push_value", "push_value", "memmove")
    if len(f.params) != 4:
        raise AnalysisBroken("the parameters of enter_function changed")

    def run(kind, inner, argc, params, more, reg_name):
        def typ(n, o, av, st):
            # the function register changes when a bound method is replaced by its function
            if any(e[0] == "set" and e[1] == reg_name for e in st.mem.get(("ev",), ())):
                return [integer(types[inner], types[inner], T + "ValueType")]
            if sc.path(o, st) == reg_name:
                return [integer(types[kind], types[kind], T + "ValueType")]
            return [integer(types[inner], types[inner], T + "ValueType")]
        which = prog.enums.get(T + "MagicFunction::Which") or next((e for q, e in prog.enums.items() if q.startswith(T + "MagicFunction")), None)
        first = int(which["c"][0][1]) if which else 0
        sc = Scenario(prog, fixed={"type": typ, "params": integer(params, params), "which": integer(first, first, T + "MagicFunction::Which")}, watch=W, follow=nofollow, peel=4)
        return sc, sc.run(f, [None, None, integer(argc, argc), yes(more)], this("vm::Interpreter"))
    reg_name = f.params[1].name
    frames = {"CodeFunction": "push_user_frame", "NativeFunction": "push_resumable_frame", "MagicFunction": "push_catch_frame"}
    for kind in types:
        bound = kind == "BoundMethod"
        for inner in (list(frames) if bound else [kind]):
            for argc, params in ((2, 2), (1, 2), (3, 2), (0, 0), (0, 1), (1, 1)):
                if inner == "MagicFunction":
                    params = 1
                for more in (True, False):
                    if kind not in frames and not bound and (argc, more) != (2, True):
                        continue
                    sc, outs = run(kind, inner, argc, params, more, reg_name)
                    have = argc + (1 if bound else 0)
                    legal = have == params if inner == "CodeFunction" else have >= params
                    legal = legal and inner in frames
                    key = "%s:%s:%d:%d:%s" % (kind, inner, argc, params, more)
                    chk(rep, "calls", f, outs, "a call of a %s never ends" % kind, key)
                    for v, ev, st in outs:
                        push, un = events(ev, *PUSH), events(ev, "unwind")
                        if not legal:
                            chk(rep, "calls", f, len(un) == 1 and not push, "a call of a %s with %d of %d arguments is %s" % (kind, have, params, "accepted" if push else "ignored"), key)
                            continue
                        ok = [e[0] for e in push] == [frames[inner]] and not un
                        chk(rep, "calls", f, ok, "a call of a %s with %d of %d arguments pushes: %s" % (kind, have, params, ", ".join(e[0] for e in push) or "nothing"), key)
                        if ok:
                            chk(rep, "calls", f, push[0][2][-1] == str(fl["FRAME_POP_ONE_MORE"] if more else 0), "the additional value of a method call is forgotten", key + ":more")
                            if inner != "CodeFunction":
                                chk(rep, "calls", f, push[0][2][-2] == str(have), "the frame has the wrong number of arguments", key + ":argc")
                            if bound:
                                chk(rep, "calls", f, len(events(ev, "must_push_value", "push_value")) == 1, "the bound object does not become an argument", key + ":this")
    # rethrow
    g = one(prog, T + "BytecodeInterpreter::run")
    found = [n for n in g.calls() if n.name == "unwind" and any(m.name == "current_exception" for a in n.args if a is not None for m in a.walk())]
    chk(rep, "rethrow", g, found, "the original error is not raised again at the end of a handler", "rethrow")
    h = one(prog, T + "BytecodeInterpreter::unwind")
    sc = Scenario(prog, watch=("unwind",), follow=nofollow)
    for v, ev, st in sc.run(h, this=this("vm::BytecodeInterpreter")):
        chk(rep, "rethrow", h, len(ev) == 1 and h.params[0].name in ev[0][2][-1], "an error raised by an instruction does not unwind", "unwind")


def compiler(prog, rep):
    C = G + "FunctionIRGen::"
    # normal exit of one scope
    f = one(prog, C + "compile_scope_exit")
    for count in (0, 1, 2, 3):
        for processed in range(count + 1):
            for fails in ((False, True) if count > processed else (False,)):
                scope = V("o", ty=G + "Region::Scope", path="SCOPE")
                st0 = State()
                st0.mem[(scope.id, "processed")] = integer(processed, processed)
                st0.mem[(scope.id, "original_handler")] = obj("ORIGINAL")
                okv = [yes(not fails)]
                sc = Scenario(prog, fixed={"as_scope": scope, "size": integer(count, count), "operator bool": lambda n, o, av, st: okv if "compile_expr" in sc.path(o, st) else None},
                              watch=("current_handler", "compile_expr", "operator[]", "at"), follow=lambda t: "lambda" in (t.cls or "") or t.name == "operator()" and t.relfile == f.relfile, peel=6)
                outs = sc.run(f, [integer(0, 0), None], this("ir::FunctionIRGen"), st0)
                key = "%d:%d:%s" % (count, processed, fails)
                chk(rep, "exit-order", f, outs, "a scope cannot be left", key)
                for v, ev, st in outs:
                    ex = events(ev, "compile_expr")
                    order = [int(e[2][-1]) for e in events(ev, "operator[]", "at") if "deferred" in e[1] and e[2] and e[2][-1].isdigit()]
                    want = list(range(count - processed - 1, -1, -1))
                    if fails:
                        want = want[:1]
                    chk(rep, "exit-order", f, order == want and len(ex) == len(want), "leaving a scope with %d deferred expressions of which %d are done evaluates %s" % (count, processed, order), key)
                    hs = [e for e in events(ev, "current_handler") if e[2]]
                    inner = [e for e in hs if ex and ev.index(e) < ev.index(ex[-1])]
                    chk(rep, "exit-order", f, len(inner) == len(want), "deferred expressions are not protected by their own handlers", key + ":handler")
                    chk(rep, "exit-handler", f, hs and hs[-1][2][-1] == "ORIGINAL" and (not ex or ev.index(hs[-1]) > ev.index(ex[-1])), "the handler of the enclosing scope is not restored", key)
                    x = st.mem.get((scope.id, "processed"))
                    chk(rep, "exit-order", f, x is not None and sc.path(x, st) == str(processed), "the progress is not reset after a scope was left", key + ":reset")
    # leaving several scopes
    f = one(prog, C + "compile_scope_exit_until")
    kinds = values(prog, G + "RegionType")
    for depth in (0, 1, 3):
        for target in [None] + list(range(depth)):
            for loop in [None] + list(range(depth)):
                tgt = V("o", ty=G + "RegionId", path="TARGET")

                def last(st):
                    es = [e for e in st.mem.get(("ev",), ()) if e[0] in ("ptr_to", "operator[]")]
                    d = "".join(c for c in (es[-1][2][-1] if es else "") if c.isdigit() or c == "-")
                    return int(d) if d else None
                def typ(n, o, av, st, loop=loop):
                    i = last(st)
                    k = kinds["Loop"] if i is not None and i == loop else kinds["Scope"]
                    return [integer(k, k, G + "RegionType")]
                sc = Scenario(prog, fixed={"size": integer(depth, depth), "value": integer(target or 0, target or 0), "operator bool": lambda n, o, av, st: yes(target is not None) if "TARGET" in sc.path(o, st) or "target" in sc.path(o, st) else yes(True),
                                           "type": typ, "valid": yes(target is not None), "current_handler": lambda n, o, av, st: obj("ACTIVE") if not av else None},
                              watch=("ptr_to", "operator[]", "compile_scope_exit", "current_handler"), follow=lambda t: t.name == "operator()" and t.relfile == f.relfile, peel=6)
                outs = sc.run(f, [tgt, None], this("ir::FunctionIRGen"))
                key = "%d:%s:%s" % (depth, target, loop)
                chk(rep, "jumps", f, outs, "scopes cannot be left", key)
                for v, ev, st in outs:
                    left = ["".join(c for c in e[2][0] if c.isdigit()) for e in events(ev, "compile_scope_exit")]
                    want = [str(i) for i in range(depth - 1, (target if target is not None else -1), -1) if i != loop]
                    chk(rep, "jumps", f, len(left) == len(want) and all(a.endswith(b) for a, b in zip(left, want)), "a jump leaves the scopes %s instead of %s" % (left, want), key)
                    sets = [e for e in events(ev, "current_handler") if e[2]]
                    exits = events(ev, "compile_scope_exit")
                    if exits:
                        chk(rep, "exit-handler", f, sets and sets[-1][2][-1] == "ACTIVE" and ev.index(sets[-1]) > ev.index(exits[-1]), "code behind a jump out of a scope is compiled without the active handler", "until")
    # entering and leaving scopes
    f = one(prog, C + "enter_scope")
    sc = Scenario(prog, fixed={"current_handler": lambda n, o, av, st: obj("ACTIVE") if not av else None}, watch=("make_scope", "push_back"), follow=nofollow)
    outs = sc.run(f, this=this("ir::FunctionIRGen"))
    for v, ev, st in outs:
        m = events(ev, "make_scope")
        chk(rep, "exit-handler", f, len(m) == 1 and m[0][2][0] == "ACTIVE" and m[0][2][1] == "0", "a scope does not remember the enclosing handler", "enter")
    chk(rep, "exit-handler", f, outs, "scopes cannot be entered", "enter")
    fs = fns(prog, C + "RegionGuard::~RegionGuard")
    if not fs:
        raise AnalysisBroken("the end of regions was not found")
    f = fs[0]
    for kind, val in kinds.items():
        sc = Scenario(prog, fixed={"type": [integer(val, val, G + "RegionType")]}, watch=("current_handler", "pop_back"), follow=nofollow)
        outs = sc.run(f, this=this("ir::FunctionIRGen::RegionGuard"))
        chk(rep, "exit-handler", f, outs, "regions cannot be left", "leave:" + kind)
        for v, ev, st in outs:
            s = [e for e in events(ev, "current_handler") if e[2]]
            pop = events(ev, "pop_back")
            if kind == "Scope":
                chk(rep, "exit-handler", f, len(s) == 1 and "original_handler" in s[0][2][-1] and len(pop) == 1 and ev.index(s[0]) < ev.index(pop[0]), "the handlers of a scope stay active behind it", "leave")
            else:
                chk(rep, "exit-handler", f, len(pop) == 1 and not s, "a region is not removed", "leave:" + kind)
    # defer
    f = one(prog, G + "StmtCompiler::visit_defer_stmt")
    W = ("make_handler_block", "make_current", "compile_expr", "end", "emplace_back", "push_back", "current_handler", "advance", "make_rethrow")
    for fails in (True, False):
        sc = Scenario(prog, fixed={"operator bool": lambda n, o, av, st: yes(not fails) if "compile_expr" in sc.path(o, st) else None, "make_handler_block": obj("HANDLER"),
                                   "current_handler": lambda n, o, av, st: obj("ACTIVE") if not av else None, "processed": integer(0, 0), "size": integer(1, 1)}, watch=W,
                      follow=lambda t: t.name == "operator()" and t.relfile == f.relfile)
        outs = sc.run(f, this=this("ir::StmtCompiler"))
        chk(rep, "defer", f, outs, "deferred expressions are not compiled", "defer")
        for v, ev, st in outs:
            mk = events(ev, "make_handler_block")
            chk(rep, "defer", f, len(mk) == 1 and events(ev, "make_current") and "HANDLER" in events(ev, "make_current")[0][2][-1], "a deferred expression is not compiled as a handler", "block")
            chk(rep, "defer", f, len(events(ev, "compile_expr")) == 1 and len(events(ev, "end")) == (0 if fails else 1) and len(events(ev, "make_rethrow")) == (0 if fails else 1), "a handler does not rethrow", "rethrow:%s" % fails)
            em = [e for e in events(ev, "emplace_back", "push_back") if "deferred" in e[1]]
            hs = [e for e in events(ev, "current_handler") if e[2]]
            adv = events(ev, "advance")
            ok = len(em) == 1 and "ACTIVE" in "".join(em[0][2]) and len(hs) == 1 and hs[0][2][-1] == "HANDLER" and ev.index(em[0]) < ev.index(hs[0]) and mk and ev.index(mk[0]) < ev.index(hs[0])
            chk(rep, "defer", f, ok, "a deferred expression is not registered with the handler that was active before it", "register:%s" % fails)
            chk(rep, "defer", f, len(adv) == 1 and hs and ev.index(adv[0]) > ev.index(hs[0]), "the code behind a deferred expression is not protected by its handler", "advance:%s" % fails)
    # blocks and jumps
    for name, until, term in (("visit_break_expr", "current_loop_id", "make_jump"), ("visit_continue_expr", "current_loop_id", "make_jump"), ("visit_return_expr", None, "make_return")):
        f = one(prog, G + "ExprCompiler::" + name)
        for fails in (True, False):
            sc = Scenario(prog, fixed={"operator bool": lambda n, o, av, st: yes(not fails) if "compile_scope_exit_until" in sc.path(o, st) else None, "current_loop_id": obj("LOOP")},
                          watch=("compile_scope_exit_until", "end", "make_jump", "make_return", "dispatch", "compile_value"), follow=nofollow)
            outs = sc.run(f, this=this("ir::ExprCompiler"))
            chk(rep, "jumps", f, outs, "%s cannot be compiled" % name, name)
            for v, ev, st in outs:
                x, e, t = events(ev, "compile_scope_exit_until"), events(ev, "end"), events(ev, term)
                value = events(ev, "dispatch", "compile_value")
                if term == "make_return" and not x:
                    chk(rep, "jumps", f, not e and value, "a return does not evaluate the deferred expressions", name)
                    continue
                target = x[0][2][0] if x else ""
                ok = len(x) == 1 and (target == "LOOP" if until else "RegionId" in target and "LOOP" not in target) and len(e) == len(t) == (0 if fails else 1) and (not e or ev.index(x[0]) < ev.index(e[0]))
                ok = ok and (term != "make_return" or value and ev.index(value[0]) < ev.index(x[0]))
                chk(rep, "jumps", f, ok, "%s does not evaluate the deferred expressions of the scopes it leaves" % name, "%s:%s" % (name, fails))
    f = one(prog, G + "ExprCompiler::visit_block_expr")
    for value in (True, False):
        sc = Scenario(prog, fixed={"can_use_as_value": yes(value), "current_scope_id": obj("SCOPEID"), "can_elide": yes(True), "operator bool": yes(True)}, watch=("compile_scope_exit", "enter_scope", "compile_stmt", "compile_expr"),
                      follow=lambda t: t.name == "operator()" and t.relfile == f.relfile, peel=2)
        outs = sc.run(f, this=this("ir::ExprCompiler"))
        good = 0
        for v, ev, st in outs:
            x, en = events(ev, "compile_scope_exit"), events(ev, "enter_scope")
            chk(rep, "jumps", f, len(en) == 1, "a block is not compiled in its own scope", "block")
            chk(rep, "jumps", f, len(x) == 1, "a block is left without evaluating its deferred expressions once", "block:once")
            if x:
                good += 1
                after = [e for e in ev if e[0] in ("compile_stmt", "compile_expr") and ev.index(e) > ev.index(x[0])]
                chk(rep, "jumps", f, not after and x[0][2][0] == "SCOPEID", "the deferred expressions of a block are evaluated before its end", "block:end")
        chk(rep, "jumps", f, good, "the end of a block does not evaluate the deferred expressions", "block:good")
    # handler table
    f = one(prog, C + "make_block")
    sc = Scenario(prog, fixed={"current_handler": lambda n, o, av, st: obj("ACTIVE") if not av else None}, watch=("handler",), follow=nofollow)
    for v, ev, st in sc.run(f, this=this("ir::FunctionIRGen")):
        chk(rep, "table", f, len(ev) == 1 and ev[0][2] == ("ACTIVE",), "a new block does not get the active handler", "block")
    f = one(prog, C + "make_handler_block")
    sc = Scenario(prog, fixed={"make_block": obj("NEW")}, watch=("push_back", "emplace_back", "is_handler", "append_predecessor"), follow=nofollow)
    for v, ev, st in sc.run(f, this=this("ir::FunctionIRGen")):
        reg = [e for e in events(ev, "push_back", "emplace_back") if e[2] and e[2][-1] == "NEW"]
        mark = [e for e in events(ev, "is_handler") if e[2] == ("true",)]
        chk(rep, "table", f, len(reg) == 1 and mark and sc.path(v, st) == "NEW", "a handler is not registered in the function", "handler")
    f = one(prog, "tiro::FunctionCompiler::run") if fns(prog, "tiro::FunctionCompiler::run") else None
    writers = users(prog, "tiro::BytecodeWriter::start_handler")
    chk(rep, "table", f, writers, "no handlers are written", "write")
    for g, n in writers:
        chk(rep, "table", n, any(m.name == "handler" for a in n.args if a is not None for m in a.walk()), "the handler of a block is not written", "write:" + home(prog, g).name)
    for act in ("same", "other", "none"):
        f = one(prog, "tiro::BytecodeWriter::start_handler")
        th = this("BytecodeWriter")
        sc = Scenario(prog, fixed={"operator==": yes(act == "same"), "operator!=": yes(act != "same")}, watch=("finish_handler", "pos"), follow=nofollow)
        for v, ev, st in sc.run(f, this=th):
            x = st.mem.get((th.id, "handler_"))
            if act == "same":
                chk(rep, "table", f, not events(ev, "finish_handler"), "a handler's interval is split", "same")
            else:
                chk(rep, "table", f, len(events(ev, "finish_handler")) == 1 and x is not None and sc.path(x, st) == f.params[0].name and events(ev, "pos") and (th.id, "handler_start_") in st.mem,
                    "a handler's interval does not start", "start")
    f = one(prog, "tiro::BytecodeWriter::finish_handler")
    for on in (True, False):
        for empty in (True, False):
            th = this("BytecodeWriter")
            st0 = State()
            st0.mem[(th.id, "handler_start_")] = integer(4, 4)
            st0.mem[(th.id, "handler_")] = obj("HANDLER")
            sc = Scenario(prog, fixed={"operator bool": yes(on), "valid": yes(on), "pos": integer(4, 4) if empty else integer(9, 9)}, watch=("push_back", "emplace_back"), follow=nofollow)
            outs = sc.run(f, [], th, st0)
            chk(rep, "table", f, outs, "handlers cannot be finished", "finish")
            for v, ev, st in outs:
                chk(rep, "table", f, len(ev) == (1 if on and not empty else 0), "the interval of a handler is %s" % ("lost" if on and not empty else "written without need"), "finish:%s:%s" % (on, empty))
                x = st.mem.get((th.id, "handler_"))
                chk(rep, "table", f, x is not None and sc.path(x, st) != "HANDLER", "a finished handler stays active", "finish:clear")
    f = one(prog, "tiro::BytecodeWriter::simplify_handlers")
    stores = [n for n in f.nodes if n is not None and (n.k == "bin" and n.op == "=" and n.child(0) is not None and n.child(0).k == "member" and n.child(0).name == "to"
              or n.k == "call" and n.name == "operator=" and n.obj is not None and n.obj.k == "member" and n.obj.name == "to")]
    chk(rep, "table", f, stores, "adjacent intervals are not merged", "merge")
    for n in stores:
        for pair in (("from", "to"), ("target", "target")):
            chk(rep, "table", n, only_if(f, n, lambda c, t: c.k in ("bin", "call") and (c.op == "==" and t or c.op == "!=" and not t or c.k == "call" and ("==" in (c.name or "") and t or "!=" in (c.name or "") and not t))
                                         and sorted(x.name for x in c.walk() if x.k == "member" and x.name in ("from", "to", "target")) == sorted(pair)), "intervals that are not adjacent or have different handlers are merged", "merge:" + pair[0])
    f = one(prog, "tiro::BytecodeWriter::finish")
    sc = Scenario(prog, watch=("finish_handler", "simplify_handlers"), follow=nofollow)
    for v, ev, st in sc.run(f, this=this("BytecodeWriter")):
        chk(rep, "table", f, names(ev, "finish_handler")[:1] == ["finish_handler"], "the last handler's interval is lost", "last")
