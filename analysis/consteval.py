"""Constant propagation through small pure functions for one abstract argument tuple (integers, enumerators, booleans, strings).
Used to tabulate predicates over closed enumerations from their source. Anything else evaluates to Unknown."""
from .guards import strip_targs
from .paths import Switch

_M = (1 << 64) - 1


class Unknown(Exception):
    pass


NORETURN = "noreturn"


class Eval:
    def __init__(self, prog, maxsteps=4000):
        self.prog = prog
        self.maxsteps = maxsteps
        self.steps = 0

    def call(self, fn, args, this=None, depth=0):
        """returns the value; NORETURN if the path ends in a function that does not return"""
        if fn.cfg is None or depth > 8:
            raise Unknown("no body")
        env = {}
        for p, a in zip(fn.params, args):
            env[p.id] = a
        cfg = fn.cfg
        b = cfg.entry
        self.cur = None
        while True:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unknown("steps")
            blk = cfg.blocks[b]
            ret = None
            for e in blk.elems:
                if isinstance(e, list):
                    continue
                n = fn.nodes[e]
                if n is None:
                    continue
                if n.k == "decl":
                    for v, i in n.d.get("vars", ()):
                        try:
                            env[v] = self.ev(fn, fn.nodes[i], env, this, depth) if i >= 0 else None
                        except Unknown:
                            env.pop(v, None)
                elif n.k == "bin" and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                    l = n.child(0)
                    if l.k == "ref" and l.decl >= 0:
                        try:
                            r = self.ev(fn, n.child(1), env, this, depth)
                            if n.op != "=":
                                r = self.arith(n.op[:-1], env[l.decl], r)
                            env[l.decl] = r
                        except (Unknown, KeyError):
                            env.pop(l.decl, None)
                    else:
                        raise Unknown("assignment")
                elif n.k == "un" and n.op in ("++", "--"):
                    l = n.child(0)
                    if l.k == "ref" and l.decl in env:
                        env[l.decl] += 1 if n.op == "++" else -1
                    else:
                        raise Unknown("inc")
                elif n.k == "return":
                    c = n.child(0)
                    return self.ev(fn, c, env, this, depth) if c is not None else None
            if blk.noreturn:
                return NORETURN
            if b == cfg.exit:
                return None
            if blk.tk == "SwitchStmt":
                sw = Switch(fn, blk)
                v = self.ev(fn, sw.cond, env, this, depth)
                nxt = None
                for k, s in sw.cases.items():
                    kv = self.enumval(k)
                    if kv == v:
                        nxt = s
                if nxt is None:
                    nxt = sw.default if sw.default is not None else sw.falls_out
                if nxt is None:
                    return NORETURN
                b = nxt
                continue
            ss = [s for s in blk.succ]
            if len(ss) == 2 and blk.cond is not None:
                c = fn.nodes[blk.cond]
                while c.k == "bin" and c.op in ("&&", "||") and c.id not in blk.elems:
                    c = c.child(1)
                b = ss[0] if self.ev(fn, c, env, this, depth) else ss[1]
                if b < 0:
                    return NORETURN
                continue
            ss = [s for s in ss if s >= 0]
            if not ss:
                return None
            if len(ss) > 1:
                raise Unknown("branch")
            b = ss[0]

    _ev = None

    def enumval(self, k):
        if isinstance(k, int) or k is None:
            return k
        if Eval._ev is None or Eval._ev[0] is not self.prog:
            m = {}
            for t, e in self.prog.enums.items():
                for n, v in e["c"]:
                    m[t + "::" + n] = int(v)
                    m.setdefault(t.rpartition("::")[0] + "::" + n, int(v))      # unscoped enums
            Eval._ev = (self.prog, m)
        v = Eval._ev[1].get(k)
        if v is None:
            raise Unknown("enum " + k)
        return v

    @staticmethod
    def arith(op, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise Unknown("operands")
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "|":
            return a | b
        if op == "&":
            return a & b
        if op == "^":
            return a ^ b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if op == "/" and b:
            return int(a / b)
        if op == "%" and b:
            return a - b * int(a / b)
        raise Unknown("op " + op)

    def ev(self, fn, n, env, this, depth):
        if n is None:
            raise Unknown("none")
        E = lambda x: self.ev(fn, x, env, this, depth)
        k = n.k
        if k == "ref":
            if n.decl >= 0 and n.decl in env:
                return env[n.decl]
            if n.value is not None:
                return n.value
            raise Unknown("ref " + n.name)
        if n.value is not None and k != "call":
            return n.value
        if k == "str":
            return n.d.get("s", "")
        if k in ("cast",):
            return E(n.child(0))
        if k == "enum":
            return self.enumval(n.q)
        if k == "this":
            if this is None:
                raise Unknown("this")
            return this
        if k == "init" and len(n.children) == 1:
            return E(n.children[0])
        if k == "bin":
            op = n.op
            if op == "&&":
                return bool(E(n.child(0))) and bool(E(n.child(1)))
            if op == "||":
                return bool(E(n.child(0))) or bool(E(n.child(1)))
            a, b = E(n.child(0)), E(n.child(1))
            if op in ("==", "!="):
                return (a == b) == (op == "==")
            if op in ("<", "<=", ">", ">="):
                if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                    raise Unknown("cmp")
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            return self.arith(op, a, b)
        if k == "un":
            a = E(n.child(0))
            if n.op == "!":
                return not a
            if n.op == "-":
                return -a
            if n.op == "+":
                return a
            if n.op == "~":
                return ~a
            raise Unknown("un " + n.op)
        if k == "cond":
            c, a, b = n.children
            return E(a) if E(c) else E(b)
        if k == "call":
            if n.d.get("ck") == "ctor" and len(n.args) == 1:
                return E(n.args[0])
            q = strip_targs(n.q)
            if q in ("std::move", "std::forward", "__builtin_expect", "tiro::to_underlying") and n.args:
                return E(n.args[0])
            if n.d.get("ck") == "op" and n.op in ("==", "!="):
                xs = ([n.obj] if n.obj is not None else []) + n.args
                a, b = E(xs[0]), E(xs[1])
                return (a == b) == (n.op == "==")
            if n.name == "operator()" or n.d.get("virt"):
                raise Unknown("call")
            t = self.prog.fns.get(n.d.get("u"))
            if t is not None:
                th = None
                if n.obj is not None:
                    try:
                        th = E(n.obj)
                    except Unknown:
                        th = None
                return self.call(t, [E(a) for a in n.args], th, depth + 1)
            raise Unknown("call " + n.q)
        raise Unknown(k)


def table(prog, fn, values):
    """[(value, result or None if unknown)]"""
    out = {}
    for v in values:
        try:
            out[v] = Eval(prog).call(fn, [v])
        except Unknown:
            out[v] = None
    return out
