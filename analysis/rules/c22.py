"""Every built-in function and method is taken from the registration tables and executed by an abstract interpreter for its declared number of
arguments (and up to two more). Rules: registration: every entry has an implementation and a constant number of parameters. arity: an argument is
accessed only if it exists for every number of arguments the entry admits. typed: an argument is converted to a type only on paths where it was tested to be
of that type. mismatch: a path on which a tested argument has none of the tested types ends with a panic, and never with an error of the host. dispatch: the interpreter
calls native functions only with at least the declared number of arguments, and methods get their instance as first argument."""
import re

from ..absint import V, integer
from ..facts import AnalysisBroken
from ..scenario import Scenario, obj, yes
from .. import util
from ..util import chk

T = "tiro::vm::"


def short(t):
    return re.sub(r"^tiro::vm::", "", t)


def entries(prog, rep):
    out = []
    for f in sorted(prog.inits.values(), key=lambda f: f.usr):
        for n in f.calls():
            if not n.q.startswith(T + "FunctionDesc::") or n.name == "FunctionDesc" or len(n.args) < 3:
                continue
            name = n.args[0].text()
            m = re.search(r'"([^"]*)"', name)
            params = const(n.args[1])
            impl = [x for x in n.args[2].walk() if x.k == "fnref"]
            flags = n.args[3].text() if len(n.args) > 3 else "0"
            variadic = "Variadic" in flags
            if flags not in ("0", "") and "Variadic" not in flags and const(n.args[3]) not in (0, None):
                variadic = True
            fns = [g for x in impl for g in prog.fns.values() if g.usr == x.d.get("u") or g.q == x.q and g.cfg is not None]
            fns = [g for g in fns if g.cfg is not None]
            label = "%s.%s" % (f.q.split("::")[-1], m.group(1) if m else name)
            chk(rep, "registration", n, params is not None and len(fns) >= 1, "the entry cannot be resolved", label)
            if params is not None and fns:
                out.append((label, n.name, params, variadic, fns[0]))
    return out


def const(n):
    try:
        return int(n.text(), 0)
    except ValueError:
        v = n.d.get("v")
        return v if isinstance(v, int) else None


def run(prog, rep):
    util.rules(rep, __doc__)
    es = entries(prog, rep)
    if len(es) < 40:
        raise AnalysisBroken("only %d registered functions found" % len(es))
    for e in es:
        builtin(prog, rep, *e)
    dispatch(prog, rep)


ARG = re.compile(r"^arg(\d+)$")
FRAMES = ("SyncFrameContext", "AsyncFrameContext", "ResumableFrameContext")


def cls(n):
    return (n.d.get("cls") or n.q.rsplit("::", 1)[0]).split("::")[-1].split("<")[0]


def builtin(prog, rep, label, kind, params, variadic, f):
    for argc in range(params, params + 3):
        bad = {}       # key -> (rule, what, where)
        tested = set()

        def root(v):
            p = sc.path(v) if v is not None else ""
            m = ARG.match(p)
            return m.group(0) if m else None

        def is_name(t, a):
            return "is:%s:%s" % (short(t), a)

        def known(st, t, a):
            return sc.it.decide(sc.it.observe(is_name(t, a), "bool"), st)

        def arg(n, o, av, st):
            if cls(n) not in FRAMES or len(av) != 1:
                return None
            i = av[0]
            if i.kind == "i" and i.lo == i.hi:
                if not i.lo < argc:
                    bad["arity:%d" % i.lo] = ("arity", "argument %d is accessed although only %d arguments are required" % (i.lo, params), n)
                    return []
                return obj("arg%d" % i.lo)
            if i.kind == "i" and i.hi is not None and i.hi < argc and i.lo >= 0:
                return obj("arg?")
            bad["arity:?"] = ("arity", "the argument %s may not exist" % sc.path(i, st), n)
            return []

        def count(n, o, av, st):
            return integer(argc, argc, "unsigned long") if cls(n) in FRAMES else None

        def args_(n, o, av, st):
            return V("o", ty=n.type, path="args") if cls(n) in FRAMES else None

        def drop(n, o, av, st):
            if sc.path(o).startswith("args") and av and av[0].kind == "i" and av[0].lo == av[0].hi:
                if av[0].hi > argc:
                    bad["arity:drop"] = ("arity", "%d arguments are skipped although only %d are required" % (av[0].hi, params), n)
                return V("o", ty=n.type, path="rest")
            return None

        def subscript(n, o, av, st):
            if o is not None and sc.path(o).startswith("args") and av:
                return arg_index(n, av[-1], st)
            return None

        def arg_index(n, i, st):
            if i.kind == "i" and i.hi is not None and i.lo >= 0 and i.hi < argc:
                return obj("arg%d" % i.lo if i.lo == i.hi else "arg?")
            bad["arity:[]"] = ("arity", "the argument %s may not exist" % sc.path(i, st), n)
            return []

        def is_(n, o, av, st):
            a, t = root(o if o is not None else av[0] if av else None), n.d.get("ta")
            if a is None or not t:
                return None
            tested.add((t[0], a))
            return sc.it.observe(is_name(t[0], a), "bool")

        def try_cast(n, o, av, st):
            a, t = root(o), n.d.get("ta")
            if a is None or not t:
                return None
            tested.add((t[0], a))
            return V("o", ty=n.type, path="cast:%s:%s" % (short(t[0]), a))

        def maybe(v):
            p = sc.path(v) if v is not None else ""
            m = re.match(r"^cast:(.*):(arg\d+)$", p)
            return m.groups() if m else None

        def test(n, o, av, st):
            m = maybe(o)
            return sc.it.observe(is_name(*m), "bool") if m else None

        def deref(n, o, av, st):
            m = maybe(o)
            if not m:
                return None
            if known(st, *m) is not True:
                bad["typed:%s:%s" % m] = ("typed", "%s is used as %s on a path where the conversion may have failed" % (m[1], m[0]), n)
            return obj(m[1])

        def must(n, o, av, st):
            a, t = root(o if o is not None else av[0] if av else None), n.d.get("ta")
            if a is None or not t or t[0].endswith("Value"):
                return None
            if known(st, t[0], a) is not True:
                bad["typed:%s:%s" % (short(t[0]), a)] = ("typed", "%s is converted to %s on a path where this type was not tested" % (a, short(t[0])), n)
            return obj(a)

        def throws(n, o, av, st):
            wrong = [(t, a) for t, a in tested if known(st, t, a) is False]
            if wrong:
                bad["mismatch:host"] = ("mismatch", "an argument of a wrong type ends in an error of the host (not a panic)", n)
            return []

        def follow(t):
            if t.name == "check_instance":
                return True
            return t.relfile == f.relfile and (not (t.d.get("cls") or "").startswith(T) or t.name == "operator()")

        sc = Scenario(prog, fixed={"arg": arg, "arg_count": count, "args": args_, "drop_front": drop, "operator[]": subscript, "is": is_, "try_cast": try_cast, "must_cast": must,
                                   "operator bool": test, "has_value": test, "handle": deref, "value": deref, "operator*": deref, "operator->": deref,
                                   "tiro::throw_error": throws},
                      watch=("panic", "return_value", "return_or_panic", "throw"), follow=follow, maxpaths=4000, peel=argc + 1)
        outs = sc.run(f, args=[obj("frame")])
        for v, ev, st in outs:
            by = {}
            for t, a in tested:
                by.setdefault(a, []).append(known(st, t, a))
            for a, ks in by.items():
                if any(k is False for k in ks) and not any(k is True for k in ks) and None not in ks:
                    ends = [e[0] for e in ev if e[0] in ("panic", "return_or_panic")]
                    if not ends:
                        bad["mismatch:%s" % a] = ("mismatch", "%s has none of the tested types and no panic is raised" % a, f)
        for k, (rule, what, where) in sorted(bad.items()):
            g = where.fn if hasattr(where, "fn") else where
            name = g.name if g is not f and hasattr(g, "name") else label
            chk(rep, rule, where, False, what, "%s|%s" % (name if rule == "mismatch" and g is not f else label, k))
        for rule in ("arity", "typed", "mismatch"):
            if not any(b[0] == rule for b in bad.values()):
                chk(rep, rule, f, True, "", "%s|%d" % (label, argc))
        if not outs and not bad:
            raise AnalysisBroken("no path through %s" % f.q)




class As:
    """reports the obligations of another rule module under one rule of this one"""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def check(self, ok, rule, loc, name, msg):
        self.rep.check(ok, self.rule, loc, name, msg)

    def __getattr__(self, k):
        return getattr(self.rep, k)


def dispatch(prog, rep):
    from . import c32
    c32.calls(prog, As(rep, "dispatch"))
