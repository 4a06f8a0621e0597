"""The scheduler, the tokens and the interpreter's coroutine loop are executed by an abstract interpreter for every coroutine state and queue shape.
Rules: start: only a new coroutine can be started, it is marked as started and queued once. queue: coroutines are appended at the end and removed
from the front of the queue, and a removed coroutine is unlinked. run-ready: the loop cannot be nested, runs every queued coroutine once and calls the completion
callback exactly once, of completed coroutines only, after their token was reset. resume: resuming invalidates the current token, marks
the coroutine as ready and queues it once. tokens: a token is valid while it is the coroutine's current token and resumes only waiting coroutines. callbacks: a
callback is stored in the coroutine and called exactly once. states: the interpreter continues only started or ready coroutines, releases
the stack exactly of the completed ones, and completion stores the result first. who: states, queue and tokens are changed only by the scheduler, the
interpreter and the suspending builtins. suspend: only a native function that keeps its frame may suspend its coroutine. async: an async operation
completes at most once and never while its function is still running. async-frame: an async function suspends until its result or panic was stored
and delivers it then."""
from ..absint import V, integer, obj
from ..facts import AnalysisBroken
from ..scenario import Scenario, yes
from ..util import chk, fns, home, one, rules, this, users, values

T = "tiro::vm::"
BOTH = [yes(True), yes(False)]


def run(prog, rep):
    rules(rep, __doc__)
    states = values(prog, T + "CoroutineState")
    start(prog, rep, states)
    queue(prog, rep)
    run_ready(prog, rep, states)
    resume(prog, rep, states)
    tokens(prog, rep, states)
    callbacks(prog, rep)
    interpreter(prog, rep, states)
    who(prog, rep)
    suspend(prog, rep)
    async_(prog, rep)


def state_is(val, enum=T + "CoroutineState"):
    def f(n, o, av, st):
        return [integer(val, val, enum)] if not av else None
    return f


def path_of(ev, name, args=None):
    return [e for e in ev if e[0] == name and (args is None or e[2] == args)]


def precedes(ev, a, b):
    """the first event of a happens before the first one of b"""
    return bool(a and b) and ev.index(a[0]) < ev.index(b[0])


def sets(ev, name="state"):
    """the calls of the setter `name`"""
    return [e for e in ev if e[0] == name and e[2]]


def start(prog, rep, states):
    f = one(prog, T + "Context::start")
    for name, val in states.items():
        sc = Scenario(prog, fixed={"state": state_is(val)}, watch=("state", "schedule_coroutine"), follow=lambda t: t.relfile == f.relfile and t.name != "schedule_coroutine")
        outs = sc.run(f, this=this("vm::Context"))
        if name != "New":
            chk(rep, "start", f, not outs, "a coroutine in state %s can be started" % name, name)
            continue
        ok = bool(outs)
        for v, ev, st in outs:
            w, q = sets(ev), path_of(ev, "schedule_coroutine")
            ok = ok and len(w) == 1 and w[0][2] == (str(states["Started"]),) and len(q) == 1 and q[0][2] == (w[0][1],) and precedes(ev, w, q)
        chk(rep, "start", f, ok, "starting does not mark the coroutine as started and queue it once", "once")


def queue(prog, rep):
    f = one(prog, T + "Context::schedule_coroutine")
    W = ("set", "next_ready", "set_null")
    for engaged in (True, False):
        def full(n, o, av, st, engaged=engaged):
            return yes(engaged and "last_ready" in sc.path(o, st) or engaged and "first_ready" in sc.path(o, st))
        sc = Scenario(prog, fixed={"operator bool": full, "has_value": full, "is_null": lambda n, o, av, st: yes(False)}, watch=W, follow=lambda t: False)
        outs = sc.run(f, this=this("vm::Context"))
        chk(rep, "queue", f, outs, "a coroutine cannot be queued", "queue:%s" % engaged)
        for v, ev, st in outs:
            first = [e for e in ev if e[0] == "set" and "first_ready" in e[1]]
            last = [e for e in ev if e[0] == "set" and "last_ready" in e[1]]
            link = sets(ev, "next_ready")
            chk(rep, "queue", f, len(last) == 1 and last[0][2][0] == "coro", "the scheduled coroutine does not become the last one of the queue", "last:%s" % engaged)
            if engaged:
                chk(rep, "queue", f, len(link) == 1 and "last_ready" in link[0][1] and link[0][2] == ("coro",) and precedes(ev, link, last) and not first,
                    "a scheduled coroutine is not linked to the previously last one", "link")
            else:
                chk(rep, "queue", f, not link and len(first) == 1 and first[0][2][0] == "coro", "the only scheduled coroutine is not the first one of the queue", "first")
    f = one(prog, T + "Context::dequeue_coroutine")

    def null(p):
        return p.startswith("tiro::vm::Nullable") or p in ("null", "nullptr", "{}") or "Null" in p and "(" not in p.replace("()", "")
    for before in (True, False):
        for after in ((True, False) if before else (False,)):
            def full(n, o, av, st, before=before, after=after):
                moved = any(e[0] == "set" and "first_ready" in e[1] for e in st.mem.get(("ev",), ()))
                return yes(after if moved else before)
            sc = Scenario(prog, fixed={"operator bool": full, "has_value": full, "is_null": lambda n, o, av, st: yes(not full(n, o, av, st).pred)}, watch=W, follow=lambda t: False)
            outs = sc.run(f, this=this("vm::Context"))
            chk(rep, "queue", f, outs, "the queue cannot be read", "none:%s%s" % (before, after))
            for v, ev, st in outs:
                if not before:
                    chk(rep, "queue", f, not sets(ev, "set") and "first_ready" not in sc.path(v, st), "an empty queue delivers a coroutine", "empty")
                    continue
                first = [e for e in ev if e[0] == "set" and "first_ready" in e[1]]
                last = [e for e in ev if e[0] in ("set", "set_null") and "last_ready" in e[1]]
                read = [e for e in ev if e[0] == "next_ready" and not e[2]]
                clear = sets(ev, "next_ready")
                ret = sc.path(v, st)
                chk(rep, "queue", f, "first_ready" in ret and len(first) == 1 and read and first[0][2][0] == read[0][3] and read[0][1] == ret, "the first coroutine is not removed from the queue", "advance")
                chk(rep, "queue", f, len(clear) == 1 and clear[0][1] == ret and null(clear[0][2][0]) and precedes(ev, read, clear), "the removed coroutine remains linked", "unlink")
                chk(rep, "queue", f, bool(last) == (not after), "the end of the queue is %s" % ("dropped although coroutines remain" if after else "kept although the queue is empty"), "end:%s" % after)


def run_ready(prog, rep, states):
    f = one(prog, T + "Context::run_ready")
    W = ("dequeue_coroutine", "run", "reset_token", "execute_callbacks", "state", "is_null")
    th = this("vm::Context")
    from ..absint import State
    for name in ("Ready", "Waiting", "Done"):
        def none(n, o, av, st):
            k = len([e for e in st.mem.get(("ev",), ()) if e[0] == "dequeue_coroutine"])
            return yes(k > 2)
        fx = {"state": state_is(states[name]), "is_null": none, "has_value": lambda n, o, av, st: yes(not none(n, o, av, st).pred),
              "operator bool": lambda n, o, av, st: yes(not none(n, o, av, st).pred)}
        sc = Scenario(prog, fixed=fx, watch=W, follow=lambda t: False, peel=5)
        outs = sc.run(f, this=th)
        chk(rep, "run-ready", f, outs, "the loop does not end", "end:" + name)
        for v, ev, st in outs:
            seq = [e for e in ev if e[0] not in ("state", "is_null")]
            deq = [i for i, e in enumerate(seq) if e[0] == "dequeue_coroutine"]
            chk(rep, "run-ready", f, len(deq) == 3, "coroutines remain in the queue", "all:" + name)
            for a, b in zip(deq, deq[1:] + [len(seq)]):
                part = seq[a + 1:b]
                names = [e[0] for e in part]
                if b == len(seq):
                    chk(rep, "run-ready", f, not part, "a coroutine is run although the queue is empty", "empty:" + name)
                    continue
                want = ["run", "reset_token", "execute_callbacks"] if name == "Done" else ["run"]
                chk(rep, "run-ready", f, names == want, "after running a coroutine that is %s: %s" % (name, ", ".join(names)), "after:" + name)
                if names == want:
                    who = {part[0][2][0]} | {e[1] if e[0] == "reset_token" else e[2][0] for e in part[1:]}
                    chk(rep, "run-ready", f, len(who) == 1, "the completed coroutine is not the one that ran", "who:" + name)
    for running in (True, False):
        st0 = State()
        th = this("vm::Context")
        st0.mem[(th.id, "running_")] = yes(running)
        sc = Scenario(prog, fixed={"is_null": yes(True), "has_value": yes(False), "operator bool": yes(False)}, watch=W, follow=lambda t: False)
        outs = sc.run(f, this=th, state=st0)
        chk(rep, "run-ready", f, bool(outs) != running, "a nested run is accepted" if running else "the loop does not start", "nested:%s" % running)


def resume(prog, rep, states):
    f = one(prog, T + "Context::resume_coroutine")
    for name in ("Running", "Waiting"):
        sc = Scenario(prog, fixed={"state": state_is(states[name])}, watch=("state", "reset_token", "schedule_coroutine"), follow=lambda t: False)
        outs = sc.run(f, this=this("vm::Context"))
        chk(rep, "resume", f, outs, "a coroutine cannot be resumed", name)
        for v, ev, st in outs:
            w, q, r = sets(ev), path_of(ev, "schedule_coroutine"), path_of(ev, "reset_token")
            chk(rep, "resume", f, len(w) == 1 and w[0][1] == "coro" and w[0][2] == (str(states["Ready"]),), "a resumed coroutine does not become ready", "ready")
            chk(rep, "resume", f, len(q) == 1 and q[0][2] == ("coro",), "a resumed coroutine is not queued exactly once", "queued")
            chk(rep, "resume", f, r and r[0][1] == "coro", "the token remains valid after the coroutine was resumed", "token")


def tokens(prog, rep, states):
    f = one(prog, T + "CoroutineToken::valid")
    for same in (True, False):
        sc = Scenario(prog, fixed={"same": yes(same), "operator==": yes(same)}, watch=("same", "current_token", "coroutine"), follow=lambda t: False)
        outs = sc.run(f, this=this("vm::CoroutineToken"))
        for v, ev, st in outs:
            s = path_of(ev, "same")
            t = [e for e in ev if e[0] == "current_token"]
            c = [e for e in ev if e[0] == "coroutine"]
            ok = sc.path(v, st) == str(same).lower() and len(s) == 1 and t and c and {s[0][1], s[0][2][0]} == {"this", t[0][3]} and t[0][1] == c[0][3]
            chk(rep, "tokens", f, ok, "a token is not compared to the current token of its coroutine", "valid:%s" % same)
        chk(rep, "tokens", f, outs, "validity cannot be decided", "valid")
    f = one(prog, T + "CoroutineToken::resume")
    for name, val in states.items():
        for valid in (True, False):
            sc = Scenario(prog, fixed={"valid": yes(valid), "state": state_is(val), "is_null": yes(False)}, watch=("resume_coroutine", "coroutine", "valid"), follow=lambda t: False)
            outs = sc.run(f)
            want = valid and name == "Waiting"
            chk(rep, "tokens", f, outs, "the token cannot be used", "resume")
            for v, ev, st in outs:
                r = path_of(ev, "resume_coroutine")
                chk(rep, "tokens", f, len(r) == (1 if want else 0), "a %s token %s a coroutine that is %s" % ("valid" if valid else "stale", "does not resume" if want else "resumes", name), "resume:%s:%s" % (valid, name))
                chk(rep, "tokens", f, sc.path(v, st) == str(want).lower(), "resuming reports the wrong outcome", "outcome:%s:%s" % (valid, name))
    f = one(prog, T + "Coroutine::create_token")
    for have in (True, False):
        sc = Scenario(prog, fixed={"operator bool": yes(have), "has_value": yes(have), "is_null": yes(not have)}, watch=("current_token", "make", "write_static_slot"), follow=lambda t: t.name == "current_token")
        for v, ev, st in sc.run(f):
            made, wr = path_of(ev, "make"), [e for e in ev if e[0] == "write_static_slot" or e[0] == "current_token" and e[2]]
            if have:
                chk(rep, "tokens", f, not made and not wr, "the current token is replaced", "keep")
            else:
                ok = len(made) == 1 and len(wr) == 1 and wr[0][2][-1] == made[0][3] and sc.path(v, st) == made[0][3] and "coroutine" in made[0][2]
                chk(rep, "tokens", f, ok, "a new token does not become the coroutine's current token", "store")
    f = one(prog, T + "Coroutine::reset_token")
    g = one(prog, T + "Coroutine::current_token")
    sc = Scenario(prog, watch=("read_static_slot",), follow=lambda t: False)
    slots = {e[2][0] for v, ev, st in sc.run(g, this=this("vm::Coroutine")) for e in ev}
    sc = Scenario(prog, watch=("write_static_slot",), follow=lambda t: False)
    for v, ev, st in sc.run(f, this=this("vm::Coroutine")):
        chk(rep, "tokens", f, len(ev) == 1 and {ev[0][2][0]} == slots and "#" not in ev[0][2][-1] and "token" not in ev[0][2][-1].replace("CoroutineToken", ""), "the token is not reset", "reset")


def callbacks(prog, rep):
    f = one(prog, T + "Context::execute_callbacks")
    for have in (True, False):
        sc = Scenario(prog, fixed={"has_value": yes(have), "is_null": yes(not have), "operator bool": yes(have)}, watch=("done", "native_callback"), follow=lambda t: False)
        outs = sc.run(f, this=this("vm::Context"))
        chk(rep, "callbacks", f, outs, "callbacks are not executed", "run")
        for v, ev, st in outs:
            d = path_of(ev, "done")
            chk(rep, "callbacks", f, len(d) == (1 if have else 0) and (not have or d[0][2] == ("this", "coro")), "the callback of a completed coroutine is called %d times" % len(d), "done:%s" % have)
    f = one(prog, T + "Context::set_callback")
    for have in (True, False):
        sc = Scenario(prog, fixed={"has_value": yes(have), "is_null": yes(not have), "operator bool": yes(have)}, watch=("move", "native_callback", "make", "data"), follow=lambda t: False)
        outs = sc.run(f, this=this("vm::Context"))
        for v, ev, st in outs:
            m, mk = path_of(ev, "move"), path_of(ev, "make")
            w = sets(ev, "native_callback")
            ok = len(m) == 1 and m[0][1] == "on_complete" and len(mk) == 1 and w and mk[0][3] in w[-1][2][0] and ev.index(w[-1]) > ev.index(m[0]) and w[-1][1] == "coro"
            chk(rep, "callbacks", f, ok, "the callback is not stored in the coroutine", "set:%s" % have)
        chk(rep, "callbacks", f, outs, "callbacks are not stored", "set")
    for g, n in users(prog, T + "CoroutineCallback::done"):
        h = home(prog, g)
        chk(rep, "callbacks", n, h.q == f.q.replace("set_callback", "execute_callbacks"), "a completion callback is called outside of the scheduler", h.name)
    for g, n in users(prog, T + "Context::execute_callbacks"):
        chk(rep, "callbacks", n, home(prog, g).q == T + "Context::run_ready", "completion callbacks are executed outside of the scheduler loop", home(prog, g).name)


def interpreter(prog, rep, states):
    f = one(prog, T + "Interpreter::run_until_block")
    for name, val in states.items():
        def state(n, o, av, st, val=val):
            if av:
                return None
            w = sets(st.mem.get(("ev",), ()))
            steps = [e for e in st.mem.get(("ev",), ()) if e[0] == "run_frame"]
            cur = int(w[-1][2][0]) if w and w[-1][2][0].isdigit() else val
            return [integer(states["Waiting"] if steps else cur, states["Waiting"] if steps else cur, T + "CoroutineState")]
        sc = Scenario(prog, fixed={"state": state}, watch=("state", "call_function", "run_frame", "push_function_args"), follow=lambda t: False, peel=3)
        outs = sc.run(f, this=this("vm::Interpreter"))
        if name not in ("Started", "Ready"):
            chk(rep, "states", f, not outs, "a coroutine in state %s is run" % name, name)
            continue
        chk(rep, "states", f, outs, "a coroutine in state %s cannot run" % name, name)
        for v, ev, st in outs:
            w, c, s = sets(ev), path_of(ev, "call_function"), path_of(ev, "run_frame")
            chk(rep, "states", f, len(w) == 1 and w[0][2] == (str(states["Running"]),), "a coroutine that runs is not marked as running", name + ":mark")
            chk(rep, "states", f, len(c) == (1 if name == "Started" else 0), "the coroutine's function is called %d times" % len(c), name + ":call")
            chk(rep, "states", f, len(s) == 1 and (not c or precedes(ev, w, c)) and precedes(ev, w, s), "the loop continues after the coroutine was suspended or does not run its frames", name + ":loop")
    f = one(prog, T + "Interpreter::run")
    for name in ("Ready", "Waiting", "Done"):
        def state(n, o, av, st, name=name):
            ran = any(e[0] == "run_until_block" for e in st.mem.get(("ev",), ()))
            return [integer(states[name] if ran else states["Ready"], states[name] if ran else states["Ready"], T + "CoroutineState")] if not av else None
        sc = Scenario(prog, fixed={"state": state, "is_null": lambda n, o, av, st: [yes(False)]}, watch=("state", "stack", "run_until_block"), follow=lambda t: False)
        outs = sc.run(f, this=this("vm::Interpreter"))
        chk(rep, "states", f, outs, "the coroutine does not run", "run:" + name)
        for v, ev, st in outs:
            r, s = path_of(ev, "run_until_block"), sets(ev, "stack")
            chk(rep, "states", f, len(r) == 1 and len(s) == (1 if name == "Done" else 0) and not sets(ev), "the stack of a coroutine that is %s is %s" % (name, "released" if s else "kept"), "stack:" + name)
    for q in ("return_function", "unwind"):
        f = one(prog, T + "Interpreter::" + q)
        sc = Scenario(prog, fixed={"state": lambda n, o, av, st: None if av else [integer(states["Running"], states["Running"], T + "CoroutineState")]}, watch=("state", "result", "pop_frame", "push_value", "unwind_into"),
                      follow=lambda t: False, peel=3)
        done = 0
        for v, ev, st in sc.run(f, this=this("vm::Interpreter")):
            w = sets(ev)
            for e in w:
                done += 1
                res = [x for x in ev[:ev.index(e)] if x[0] == "result" and x[2] and x[1] == e[1]]
                chk(rep, "states", f, e[2] == (str(states["Done"]),) and len(res) == 1 and len(w) == 1, "a coroutine completes without a result", q)
        chk(rep, "states", f, done, "the coroutine never completes", q + ":done")


SCHED = ("src/vm/context.cpp", "src/vm/interpreter.cpp", "src/vm/objects/coroutine.cpp")


def who(prog, rep):
    legal = {"state": SCHED, "stack": SCHED, "result": SCHED, "next_ready": ("src/vm/context.cpp",), "native_callback": ("src/vm/context.cpp",), "reset_token": SCHED}
    for name, files in legal.items():
        for f, n in users(prog, T + "Coroutine::" + name, None if name == "reset_token" else True):
            h = home(prog, f)
            chk(rep, "who", n, h.relfile in files, "the %s of a coroutine is changed by %s" % (name, h.name), "%s:%s" % (name, h.q))
    for f, n in users(prog, T + "Coroutine::state", True):
        h = home(prog, f)
        a = [x for x in n.args if x is not None][-1]
        val = (a.q or "").split("::")[-1]
        want = {"Started": "src/vm/context.cpp", "Ready": "src/vm/context.cpp", "Running": "src/vm/interpreter.cpp", "Waiting": "src/vm/interpreter.cpp", "Done": "src/vm/interpreter.cpp"}
        if val in want:
            chk(rep, "who", n, h.relfile == want[val], "a coroutine becomes %s in %s" % (val, h.name), "%s:%s" % (val, h.q))
    for f, n in users(prog, T + "Context::schedule_coroutine") + users(prog, T + "Context::dequeue_coroutine"):
        h = home(prog, f)
        chk(rep, "who", n, h.relfile == "src/vm/context.cpp", "the queue of ready coroutines is used by %s" % h.name, "queue:" + h.q)
    for f, n in users(prog, T + "Context::resume_coroutine"):
        h = home(prog, f)
        chk(rep, "who", n, h.relfile in SCHED, "a coroutine is resumed by %s" % h.name, "resume:" + h.q)


def suspend(prog, rep):
    """functions that suspend the running coroutine are resumable and leave a state that ends the frame after the coroutine was resumed"""
    end = None
    for q, e in prog.enums.items():
        if q.startswith(T + "ResumableFrameContext"):
            end = {k: int(v) for k, v in e["c"]}
    if not end:
        raise AnalysisBroken("the states of resumable frames were not found")
    for f, n in users(prog, T + "Coroutine::schedule"):
        h = home(prog, f)
        frame = [p for p in h.params if "ResumableFrameContext" in (p.type or "")]
        chk(rep, "suspend", n, frame, "%s suspends its coroutine but its frame returns immediately: the coroutine may complete while it is queued" % h.name, h.q)
        if not frame:
            continue
        sc = Scenario(prog, watch=("schedule", "set_state", "yield", "return_value", "invoke", "panic"), follow=lambda t: False)
        for v, ev, st in sc.run(h):
            s = path_of(ev, "schedule")
            states = [e for e in ev if e[0] in ("set_state", "yield")]
            if s:
                chk(rep, "suspend", h, len(s) == 1 and states and not [e for e in ev if e[0] in ("return_value", "invoke", "panic")],
                    "a function that suspends its coroutine %s" % ("runs again from the start after it was resumed" if not states else "continues with another action"), h.q + ":next")
                chk(rep, "suspend", h, all(not e[2] or e[2][-1] != str(end.get("START", 0)) for e in states), "a function that suspends its coroutine runs again from the start", h.q + ":start")
    for q, act in (("do_yield", "YIELD"), ("do_ret", "RETURN"), ("do_panic", "PANIC"), ("do_invoke", "INVOKE")):
        f = one(prog, T + "ResumableFrameContinuation::" + q)
        acts = values(prog, T + "ResumableFrameContinuation::Action")
        th = this("vm::ResumableFrameContinuation")
        sc = Scenario(prog, follow=lambda t: False)
        for v, ev, st in sc.run(f, this=th):
            got = [sc.path(x, st) for k, x in st.mem.items() if isinstance(k, tuple) and k[1:] == ("action_",)]
            chk(rep, "suspend", f, got and all(g == str(acts[act]) for g in got), "the continuation does not record the action %s" % act, act)
    for q, act, state in (("yield", "do_yield", None), ("return_value", "do_ret", "END"), ("panic", "do_panic", "END"), ("invoke", "do_invoke", None)):
        f = one(prog, T + "ResumableFrameContext::" + q)
        sc = Scenario(prog, watch=("do_yield", "do_ret", "do_panic", "do_invoke", "set_state"), follow=lambda t: False)
        for v, ev, st in sc.run(f, [integer(7, 7) if p.type == "int" else None for p in f.params], this("vm::ResumableFrameContext")):
            a, s = [e for e in ev if e[0].startswith("do_")], path_of(ev, "set_state")
            want = str(end["END"]) if state else "7"
            chk(rep, "suspend", f, [e[0] for e in a] == [act] and len(s) == 1 and s[0][2] == (want,), "%s does not request its action or leaves the wrong state" % q, q)
    f = one(prog, T + "ResumableFrameContext::set_state")
    sc = Scenario(prog, fixed={"frame": lambda n, o, av, st: FRAME}, follow=lambda t: False)
    FRAME = V("o", ty=T + "ResumableFrame", path="frame")
    for v, ev, st in sc.run(f, [integer(7, 7)], this("vm::ResumableFrameContext")):
        x = st.mem.get((FRAME.id, "state"))
        chk(rep, "suspend", f, x is not None and sc.path(x, st) == "7", "the state of the frame is not stored", "set_state")
    # what the interpreter does with a resumable frame
    f = [g for g in fns(prog, T + "Interpreter::run_frame") if any("ResumableFrame" in (p.type or "") for p in g.params)]
    if not f:
        raise AnalysisBroken("the execution of resumable frames was not found")
    f = f[0]
    states = values(prog, T + "CoroutineState")
    acts = values(prog, T + "ResumableFrameContinuation::Action")
    W = ("state", "invoke", "return_function", "unwind", "call_function", "push_function_args", "pop_frame", "pop_values")
    for at_end in (True, False):
        for act, val in acts.items():
            fr = V("o", ty=T + "ResumableFrame", path="frame")
            from ..absint import State
            st0 = State()
            st0.mem[(fr.id, "state")] = integer(end["END"], end["END"]) if at_end else integer(0, 5)
            sc = Scenario(prog, fixed={"action": [integer(val, val, T + "ResumableFrameContinuation::Action")], "top_frame": fr,
                                       "state": lambda n, o, av, st: None if av else [integer(states["Running"], states["Running"], T + "CoroutineState")]}, watch=W, follow=lambda t: False)
            outs = sc.run(f, [None, fr], this("vm::Interpreter"), st0)
            chk(rep, "suspend", f, outs, "resumable functions are not run", "run:%s" % act)
            for v, ev, st in outs:
                names = [e[0] for e in ev if e[0] in ("invoke", "return_function", "unwind", "call_function", "pop_frame")]
                waits = [e for e in sets(ev)]
                if at_end:
                    chk(rep, "suspend", f, names == ["return_function"] and not waits, "a resumable function that ended is run again", "ended")
                    continue
                want = {"NONE": ["invoke"], "YIELD": ["invoke"], "RETURN": ["invoke", "return_function"], "PANIC": ["invoke", "unwind"], "INVOKE": ["invoke", "call_function"]}.get(act)
                if want is None:
                    continue
                chk(rep, "suspend", f, names == want, "the action %s of a resumable function leads to: %s" % (act, ", ".join(names)), "action:" + act)
                if act == "YIELD":
                    ok = len(waits) == 1 and waits[0][2] == (str(states["Waiting"]),)
                else:
                    ok = not waits
                chk(rep, "suspend", f, ok, "the action %s changes the coroutine's state wrongly" % act, "wait:" + act)


def async_(prog, rep):
    f = one(prog, T + "UnownedAsyncResumeToken::complete")
    for current in (True, False):
        for resumed in (True, False):
            for panic in (True, False):
                sc = Scenario(prog, fixed={"same": yes(current), "resume": yes(resumed)}, watch=("same", "resume", "operator=", "get_frame", "local", "set"), follow=lambda t: False)
                outs = sc.run(f, [None, yes(panic)], this("vm::UnownedAsyncResumeToken"))
                key = "%s:%s:%s" % (current, resumed, panic)
                if current or not resumed:
                    chk(rep, "async", f, not outs, "an operation completes %s" % ("while its function is still running" if current else "although the coroutine was already resumed"), key)
                    continue
                chk(rep, "async", f, outs, "an operation cannot complete", key)
                idx = {k: v for q, e in prog.enums.items() if q.startswith(T + "AsyncFrameContext") for k, v in e["c"]}
                for v, ev, st in outs:
                    same = path_of(ev, "same")
                    res = path_of(ev, "resume")
                    slot = [e for e in ev if e[0] == "local" and len(e[2]) == 2 and e[2][1].isdigit()]
                    want = str(idx["LOCAL_PANIC" if panic else "LOCAL_RESULT"])
                    wr = [e for e in ev if e[0] in ("operator=", "set") and slot and e[1] == slot[0][3]]
                    chk(rep, "async", f, same and len(res) == 1 and precedes(ev, same, res), "the coroutine is resumed %d times" % len(res), key + ":once")
                    chk(rep, "async-frame", f, len(slot) == 1 and slot[0][2][1] == want and len(wr) == 1, "the %s is not stored in its slot" % ("panic" if panic else "result"), key + ":slot")
    for q in ("return_value", "panic"):
        f = one(prog, T + "UnownedAsyncResumeToken::" + q)
        sc = Scenario(prog, watch=("complete",), follow=lambda t: False)
        for v, ev, st in sc.run(f, this=this("vm::UnownedAsyncResumeToken")):
            chk(rep, "async", f, len(ev) == 1 and ev[0][2] == (f.params[0].name, str(q == "panic").lower()), "%s does not complete the operation" % q, q)
    # the adapters of async and plain native functions
    def locals_(n, o, av, st):
        return obj("LOCAL%s" % (av[0].lo if av and av[0].kind == "i" else "?"))
    idx = {k: int(v) for q, e in prog.enums.items() if q.startswith(T + "AsyncFrameContext") for k, v in e["c"]}
    acts = values(prog, T + "ResumableFrameContinuation::Action")
    fs = [f for f in prog.fns.values() if f.cfg is not None and f.name == "operator()" and "AsyncAdapter" in (f.cls or f.q)]
    if not fs:
        raise AnalysisBroken("the adapter of async functions was not found")
    for f in fs:
        for state in ("STATE_START", "STATE_RESUME"):
            for act in ("NONE", "YIELD", "RETURN", "PANIC"):
                for panicked in ((True, False) if state == "STATE_RESUME" else (False,)):
                    sc = Scenario(prog, fixed={"state": [integer(idx[state], idx[state])], "action": [integer(acts[act], acts[act], T + "ResumableFrameContinuation::Action")],
                                               "is_null": lambda n, o, av, st: yes(not panicked if "LOCAL%d" % idx["LOCAL_PANIC"] in sc.path(o, st) else False), "local": locals_,
                                               "has_value": lambda n, o, av, st: yes(panicked if "LOCAL%d" % idx["LOCAL_PANIC"] in sc.path(o, st) else True)},
                                  watch=("return_value", "panic", "func", "operator()"), follow=lambda t: False)
                    outs = sc.run(f)
                    chk(rep, "async-frame", f, outs, "async functions are not run", "run")
                    for v, ev, st in outs:
                        names = [e[0] for e in ev if e[0] in ("return_value", "panic")]
                        if state == "STATE_START":
                            want = ["return_value"] if act == "NONE" else []
                        else:
                            want = ["panic"] if panicked else ["return_value"]
                        chk(rep, "async-frame", f, names == want, "an async function in %s after %s ends with: %s" % (state, act, ", ".join(names) or "nothing"), "%s:%s:%s" % (state, act, panicked))
                        if state == "STATE_RESUME" and names == want:
                            e = [e for e in ev if e[0] == names[0]][0]
                            chk(rep, "async-frame", f, "LOCAL%d" % idx["LOCAL_PANIC" if panicked else "LOCAL_RESULT"] in e[2][-1], "the outcome of an async function is not delivered", "deliver:%s" % panicked)
    for f in [f for f in prog.fns.values() if f.cfg is not None and f.name == "operator()" and "SyncAdapter" in (f.cls or f.q) and "Async" not in (f.cls or f.q)]:
        for act in ("NONE", "RETURN", "PANIC"):
            sc = Scenario(prog, fixed={"state": [integer(idx["STATE_START"], idx["STATE_START"])], "action": [integer(acts[act], acts[act], T + "ResumableFrameContinuation::Action")]}, watch=("return_value", "panic"), follow=lambda t: False)
            for v, ev, st in sc.run(f):
                chk(rep, "async-frame", f, [e[0] for e in ev] == (["return_value"] if act == "NONE" else []), "a plain function does not end after %s" % act, "sync:" + act)
