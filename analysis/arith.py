"""The operators of the language as seen by the interval interpreter: outcomes (error, integer, float, boolean) of the run time functions
(src/vm/math.cpp, equal()) and of the compile time evaluator (const_eval.cpp) for classes of operands that partition all values."""
import math
import re

from .absint import Interp, V, integer, flt, obj, bare, Budget, State, INF, limits
from .facts import AnalysisBroken
from .guards import strip_targs
from .paths import switches

MIN, MAX = -(1 << 63), (1 << 63) - 1
INTS = [(MIN, MIN), (MIN + 1, -2), (-1, -1), (0, 0), (1, 1), (2, 2), (3, 62), (63, 63), (64, MAX - 1), (MAX, MAX)]
FLTS = [(-INF, -INF, False), (-1.7976931348623157e308, -math.ldexp(1, 63) * 1.5, False), (-math.ldexp(1, 63), -1.0, False), (0.0, 0.0, False),
        (1.0, math.ldexp(1, 53), False), (math.ldexp(1, 63), 1.7976931348623157e308, False), (INF, INF, False), (INF, -INF, True)]
VM = "tiro::vm::"
IR = "tiro::ir::"


class Outcome:
    __slots__ = ("kind", "lo", "hi", "nan", "sym", "sto", "a", "b", "what")

    def __init__(self, kind, lo=None, hi=None, nan=False, sym=None, a=None, b=None, what=None):
        self.kind, self.lo, self.hi, self.nan, self.sym, self.a, self.b, self.what = kind, lo, hi, nan, sym, a, b, what

    def __repr__(self):
        if self.kind in ("int", "float"):
            return "%s[%s,%s]%s" % (self.kind, self.lo, self.hi, " " + self.sym if self.sym else "")
        if self.kind == "bool":
            return "bool %s" % (self.lo,)
        return self.kind + (" " + self.what if self.what else "")


class Operand:
    """a class of values: kind int or float with a range, or null, true, false, string, symbol"""

    def __init__(self, name, kind, lo=None, hi=None, nan=False):
        self.name, self.kind, self.lo, self.hi, self.nan = name, kind, lo, hi, nan

    def num(self):
        if self.kind == "int":
            return integer(self.lo, self.hi, "long", self.name)
        return flt(self.lo, self.hi, self.nan, self.name)

    def __repr__(self):
        if self.kind == "int":
            return str(self.lo) if self.lo == self.hi else "%d..%d" % (self.lo, self.hi)
        if self.kind == "float":
            return "NaN" if self.nan and self.lo > self.hi else ("%r" % self.lo if self.lo == self.hi else "%.3g..%.3g" % (self.lo, self.hi))
        return self.kind


def opaque(t):
    return t.q.startswith(("tiro::detail::", "tiro::throw_or_abort", "fmt::")) or t.name in ("throw_or_abort",) or \
        t.cls in ("tiro::FormatStream", "tiro::IndentStream", "tiro::StringFormatStream")


class Machine:
    """shared by the two sides: operands are objects named left and right"""

    def __init__(self, prog, hook=None, peel=2, maxpaths=20000):
        self.prog = prog
        self.it = Interp(prog, hook=hook, opaque=opaque, intercept=self.intercept, peel=peel, maxpaths=maxpaths, maxdepth=24)
        self.it.enter = lambda t: t.cls == VM + "Context" and t.ret == "bool" and t.name.startswith("is_")
        self.ops = {}
        self.nums = {}

    def set(self, operands):
        self.it.interned.clear()
        self.ops = {o.name: o for o in operands}
        self.nums = {o.name: o.num() for o in operands if o.kind in ("int", "float")}

    def operand(self, v):
        return self.ops.get(v.path) if v is not None and v.kind == "s" else None

    def result(self, tag, v, what=None):
        r = obj("result:" + tag, "result")
        r.env = (tag, v, what)
        return r

    def outcomes(self, res):
        out = []
        for v, s in res:
            a = s.range(self.nums["a"])[:3] if "a" in self.nums else None
            b = s.range(self.nums["b"])[:3] if "b" in self.nums else None
            o = self.classify(v, s)
            if o is None:
                raise AnalysisBroken("result %r is not understood" % (v,))
            for x in o:
                x.a, x.b = a, b
                out.append(x)
        return out

    def classify(self, v, s):
        if v is None:
            return None
        if v.kind == "i":
            lo, hi, ex, _ = s.range(v)
            return [Outcome("int", lo, hi, sym=v.sym)]
        if v.kind == "f":
            lo, hi, ex, nan = s.range(v)
            return [Outcome("float", lo, hi, nan, v.sym)]
        if v.kind == "b":
            d = self.it.decide(v, s)
            return [Outcome("bool", x) for x in ([d] if d is not None else [True, False])]
        if v.kind == "s" and v.env is not None and isinstance(v.env, tuple):
            tag, x, what = v.env
            if tag == "err":
                return [Outcome("err", what=what)]
            if tag == "val":
                return self.classify(x, s) if x is not None else [Outcome("value", what=what)]
        if v.kind == "s" and bare(v.ty) == VM + "Exception":
            return [Outcome("err")]
        o = self.operand(v)
        if o is not None and o.kind in ("int", "float"):
            n = self.nums[o.name]
            lo, hi, ex, nan = s.range(n)
            return [Outcome(o.kind, lo, hi, nan, n.sym)]
        if o is not None:
            return [Outcome("value", what=o.kind)]
        return None


INT_TYPES = {"Integer", "SmallInteger", "HeapInteger"}


class Runtime(Machine):
    small = True

    def is_type(self, op, t, st):
        t = bare(t).rsplit("::", 1)[-1]
        if t in ("Value", "Nullable"):
            return True
        if t == "Number":
            return op.kind in ("int", "float")
        if t == "Integer":
            return op.kind == "int"
        if t == "Float":
            return op.kind == "float"
        if t in ("SmallInteger", "HeapInteger"):
            if op.kind != "int":
                return False
            return (t == "SmallInteger") == self.small
        if t == "Null":
            return op.kind == "null"
        if t == "Boolean":
            return op.kind in ("true", "false")
        if t == "String":
            return op.kind == "string"
        if t == "Symbol":
            return op.kind == "symbol"
        if t == "StringSlice":
            return False
        return None

    def enum(self, op):
        name = {"int": "SmallInteger" if self.small else "HeapInteger", "float": "Float", "null": "Null", "true": "Boolean", "false": "Boolean",
                "string": "String", "symbol": "Symbol"}[op.kind]
        for n, v in self.prog.enums[VM + "ValueType"]["c"]:
            if n == name:
                return int(v)
        raise AnalysisBroken("ValueType::%s not found" % name)

    def intercept(self, it, fn, n, q, o, av, st):
        name, ty = n.name, bare(n.type)
        if ty == VM + "Exception" and not (o is not None and name in ("exception", "operator*")):
            return [(self.result("err", None, None), st)]
        op = self.operand(o)
        ta = n.d.get("ta") or ()
        if op is not None:
            if name in ("is", "is_nullable") and ta:
                r = self.is_type(op, ta[0], st)
                if r is not None:
                    return [(V("b", pred=r), st)]
            if name in ("must_cast", "try_cast", "operator->", "operator*", "get", "to_mut", "value_or_null") and not av:
                if name == "try_cast":
                    r = self.is_type(op, ta[0], st)
                    if r is False:
                        return None
                return [(o, st)]
            if name.startswith("operator ") and not av and "Handle" in name + ty:
                return [(o, st)]
            if name == "is_null":
                return [(V("b", pred=op.kind == "null"), st)]
            if name == "same" and len(av) == 1:
                other = self.operand(av[0])
                if other is not None:
                    if op.kind in ("null", "true", "false") or other.kind in ("null", "true", "false"):
                        return [(V("b", pred=op.kind == other.kind), st)]
                elif av[0].kind == "s" and av[0].path and "false" in av[0].path.lower():
                    return [(V("b", pred=op.kind == "false"), st)]
                elif av[0].kind == "s" and av[0].path and "true" in av[0].path.lower():
                    return [(V("b", pred=op.kind == "true"), st)]
            if name == "type" and ty == VM + "ValueType":
                e = self.enum(op)
                return [(integer(e, e, ty), st)]
            if op.kind in ("int", "float") and not av:
                x = self.nums[op.name]
                if name == "value" and ty in ("long", "double"):
                    return [(x, st)]
                if name == "convert_float":
                    return [(it.promote(x, st), st)]
                if name == "convert_int":
                    if op.kind == "int":
                        return [(x, st)]
                    return [(integer(MIN, MAX, "long"), st)]
                if name == "try_extract_int" and op.kind == "int":
                    return [(x, st)]
            if op.kind in ("true", "false") and name == "value" and ty == "bool":
                return [(V("b", pred=op.kind == "true"), st)]
        if name == "get_integer" and av:
            return [(self.result("val", av[-1]), st)]
        if name == "get_boolean" and av:
            return [(self.result("val", av[-1]), st)]
        if name == "make" and av and av[-1].kind in ("i", "f", "b") and self.prog.derives(ty, VM + "Value"):
            return [(self.result("val", av[-1]), st)]
        if n.d.get("ck") == "ctor" and len(av) == 1 and (ty.startswith(VM) and (self.operand(av[0]) or av[0].env is not None)):
            return [(av[0], st)]
        if op is not None and name == "value" and not av:
            return [(o, st)]
        if o is not None and o.kind == "s" and isinstance(o.env, tuple):
            tag = o.env[0]
            if name == "has_exception":
                return [(V("b", pred=tag == "err"), st)]
            if name == "has_value":
                return [(V("b", pred=tag != "err"), st)]
            if name in ("value", "exception", "operator*", "operator->", "get", "must_cast"):
                return [(o, st)]
        return None


class Interpreter(Runtime):
    """runs the part of the bytecode interpreter that executes one instruction; the registers are the operands in the order they are read"""

    def __init__(self, prog, hook=None, peel=2, maxpaths=20000):
        super().__init__(prog, hook, peel, maxpaths)
        f = [f for f in prog.fns.values() if f.q == "tiro::vm::BytecodeInterpreter::run" and f.cfg is not None]
        sw = [s for s in switches(f[0]) if s.enum == "tiro::BytecodeOp"] if f else []
        if len(sw) != 1:
            raise AnalysisBroken("opcode switch of the interpreter not found")
        self.fn, self.sw = f[0], sw[0]
        self.all = set(self.sw.cases.values()) | ({self.sw.default} if self.sw.default is not None else set())
        self.cut = {}
        self.order = {}

    def reach(self, b, stop):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            if not self.fn.cfg.blocks[x].noreturn:
                work += [s for s in self.fn.cfg.blocks[x].succ if s >= 0]
        return seen

    def skip(self, b):
        """follows labels that share one body"""
        blk = self.fn.cfg.blocks[b]
        while not blk.elems and len([s for s in blk.succ if s >= 0]) == 1 and blk.succ[0] in self.all:
            b = blk.succ[0]
            blk = self.fn.cfg.blocks[b]
        return b

    def prepare(self, opcode):
        b = self.sw.cases.get(opcode)
        if b is None:
            return None
        b = self.skip(b)
        if b not in self.cut:
            mine = self.reach(b, {self.sw.blk.id})
            rest = set()
            for o in {self.skip(x) for x in self.all} - {b}:
                rest |= self.reach(o, {self.sw.blk.id, b})
            self.cut[b] = (mine & rest) | {self.sw.blk.id}
            reads = [n for x in mine - rest for e in self.fn.cfg.blocks[x].elems if not isinstance(e, list) and self.fn.nodes[e] is not None
                     for n in [self.fn.nodes[e]] if n.k == "call" and n.name == "read_local"]
            self.order[b] = [n.id for n in sorted(reads, key=lambda n: n.id)]
        return b

    def outcome(self, opcode, operands):
        b = self.prepare(opcode)
        if b is None:
            return None
        self.set(operands)
        self.names = [o.name for o in operands]
        self.cur = self.order[b]
        st = State()
        self.it.paths = 0
        res = self.it.walk(self.fn, next(self.it.frames), obj("this", self.fn.cls), st, 0, start=b, stop=self.cut[b])
        out = []
        for v, s in res:
            r = s.mem.get("result")
            if r is not None:
                v = r
            elif v.kind == "v":
                raise AnalysisBroken("instruction %s has a path without a result" % opcode)
            out.append((v, s))
        return self.outcomes(out)

    def intercept(self, it, fn, n, q, o, av, st):
        if fn is self.fn and n.name == "read_local" and n.k == "call":
            if n.id in self.cur:
                i = self.cur.index(n.id)
                return [(obj(self.names[i] if i < len(self.names) else "target", bare(n.type)), st)]
        if o is not None and o.kind == "s" and o.path == "target" and n.name in ("set", "operator=") and av:
            st.mem["result"] = av[-1]
            return [(V("v"), st)]
        if n.name == "unwind" and len(av) == 1:
            st.mem["result"] = self.result("err", None)
            return [(V("v"), st)]
        return super().intercept(it, fn, n, q, o, av, st)


class Compile(Machine):
    kinds = {"int": "Integer", "float": "Float", "null": "Null", "true": "True", "false": "False", "string": "String", "symbol": "Symbol"}

    def __init__(self, prog, hook=None, peel=2, maxpaths=20000):
        super().__init__(prog, hook, peel, maxpaths)
        self.feq = [f for f in prog.fns.values() if f.q == "tiro::ir::operator==" and len(f.params) == 2
                    and bare(f.params[0].type) == IR + "FloatConstant" and f.cfg is not None]

    def ctype(self, op):
        for n, v in self.prog.enums[IR + "ConstantType"]["c"]:
            if n == self.kinds[op.kind]:
                return int(v)
        raise AnalysisBroken("ConstantType::%s not found" % self.kinds[op.kind])

    def set(self, operands):
        super().set(operands)
        for o in operands:
            if o.kind in ("int", "float"):
                self.it.interned["%s.payload.value" % o.name] = self.nums[o.name]

    def intercept(self, it, fn, n, q, o, av, st):
        name, ty = n.name, bare(n.type)
        op = self.operand(o)
        if op is not None:
            if name == "type" and ty == IR + "ConstantType":
                e = self.ctype(op)
                return [(integer(e, e, ty), st)]
            if name in ("as_integer", "as_float") and not av:
                if (name == "as_integer") != (op.kind == "int"):
                    return []      # the accessor asserts the type
                return [(obj(op.name + ".payload", ty), st)]
        if n.d.get("ck") == "op" and n.op in ("==", "!="):
            xs = ([o] if o is not None else []) + list(av)
            ops = [self.operand(x) for x in xs]
            if len(ops) == 2 and all(ops):
                x, y = ops
                if x.kind != y.kind:
                    r = [(V("b", pred=False), st)]
                elif x.kind == "int":
                    r = [(V("b", pred=("cmp", "==", self.nums[x.name], self.nums[y.name])), st)]
                elif x.kind == "float" and self.feq:
                    r = it.call_fn(self.feq[0], [obj(x.name + ".payload"), obj(y.name + ".payload")], [None, None], None, st, 1)
                elif x.kind in ("null", "true", "false"):
                    r = [(V("b", pred=True), st)]
                else:
                    r = [(V("b", pred=None), st)]
                if n.op == "!=":
                    r = [(V("b", pred=("not", v)), s) for v, s in r]
                return r
        if strip_targs(n.d.get("cls") or "") == IR + "Constant" and name.startswith("make_") and n.d.get("ck") != "ctor":
            if name in ("make_true", "make_false"):
                return [(self.result("val", V("b", pred=name == "make_true")), st)]
            if name in ("make_integer", "make_float") and av:
                x = av[0]
                if x.kind == "o":
                    fs = [v for k, v in st.mem.items() if k[0] == x.id and v is not None and v.kind in ("i", "f")]
                    x = fs[0] if len(fs) == 1 else x
                if x.kind in ("i", "f"):
                    return [(self.result("val", x), st)]
            return [(self.result("val", None, name), st)]
        if n.d.get("ck") == "ctor" and ty in (IR + "EvalResult", IR + "Constant") and len(av) == 1:
            if av[0].kind == "i":
                return [(self.result("err", None, self.errname(av[0])), st)]
            return [(av[0], st)]
        if o is not None and o.kind == "s" and isinstance(o.env, tuple):
            if name in ("is_error",):
                return [(V("b", pred=o.env[0] == "err"), st)]
            if name in ("operator bool", "is_value"):
                return [(V("b", pred=o.env[0] != "err"), st)]
            if name in ("value", "operator*", "operator->"):
                return [(o, st)]
        return None

    def errname(self, v):
        for n, x in self.prog.enums[IR + "EvalResultType"]["c"]:
            if int(x) == v.lo == v.hi:
                return n
        return None


# ---- symbolic results ---------------------------------------------------------------------------------------------------------
class Undefined(Exception):
    pass


def trunc_div(a, b):
    if b == 0:
        raise Undefined
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def parse(s):
    toks = re.findall(r"[A-Za-z_:][\w:]*|\d+\.\d+|\d+|<<|>>|[()+\-*/%&|^~,]", s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        t = toks[pos[0]]
        pos[0] += 1
        return t

    def atom():
        t = take()
        if t == "(":
            l = atom()
            if peek() == ")":
                take()
                return l
            op = take()
            r = atom()
            if take() != ")":
                raise ValueError(s)
            return (op, l, r)
        if t in ("-", "~"):
            return ("neg" if t == "-" else "inv", atom())
        if t[0].isdigit():
            return int(t)
        if peek() == "(":
            take()
            xs = [atom()]
            while peek() == ",":
                take()
                xs.append(atom())
            take()
            return ("call", t, xs)
        return ("var", t)
    r = atom()
    if pos[0] != len(toks):
        raise ValueError(s)
    return r


def value(t, env):
    if isinstance(t, int):
        return t
    if t[0] == "var":
        return env[t[1]]
    if t[0] == "neg":
        return -value(t[1], env)
    if t[0] == "inv":
        return ~value(t[1], env)
    if t[0] == "call":
        if t[1].startswith("conv_") and len(t[2]) == 1:
            bits, v = int(t[1][6:]), value(t[2][0], env) & ((1 << int(t[1][6:])) - 1)
            return v - (1 << bits) if t[1][5] == "i" and v >> (bits - 1) else v
        if t[1] == "float" and len(t[2]) == 1:
            return float(value(t[2][0], env))
        if t[1] == "int" and len(t[2]) == 1:
            return math.trunc(value(t[2][0], env))
        raise ValueError("opaque")
    a, b = value(t[1], env), value(t[2], env)
    op = t[0]
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return trunc_div(a, b)
    if op == "%":
        return a - b * trunc_div(a, b)
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<" and 0 <= b < 64:
        return a << b
    if op == ">>" and 0 <= b < 64:
        return a >> b
    raise Undefined


def points(r):
    lo, hi, ex = (tuple(r) + (frozenset(),))[:3]
    xs = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2, lo + (hi - lo) // 3}
    return [x for x in sorted(xs) if lo <= x <= hi and x not in ex]


def same_function(sym, spec, a, b):
    """compares two terms as functions: True, False or None (not comparable). Linear and quadratic terms that agree on these points are equal"""
    try:
        t1, t2 = parse(sym), parse(spec)
    except (ValueError, IndexError):
        return True if sym == spec else None
    ok = None
    for x in points(a) if a else [0]:
        for y in points(b) if b else [0]:
            env = {"a": x, "b": y}
            try:
                v2 = value(t2, env)
            except Undefined:
                continue
            except ValueError:
                return True if sym == spec else None
            if not MIN <= v2 <= MAX:
                continue
            try:
                v1 = value(t1, env)
            except Undefined:
                return False
            except (ValueError, KeyError):
                return True if sym == spec else None
            if v1 != v2:
                return False
            ok = True
    return ok


def hull(op, A, B):
    """range of the exact result of an operator on two ranges; None where it is not defined"""
    if op in ("+", "-", "*"):
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
        xs = [f(x, y) for x in A for y in B]
        return min(xs), max(xs)
    if op in ("/", "%"):
        if B == (0, 0):
            return None
        ys = [y for y in (B[0], B[1]) if y != 0]
        if op == "/":
            xs = [trunc_div(x, y) for x in A for y in ys]
            return min(xs), max(xs)
        if A[0] == A[1] and B[0] == B[1]:
            r = A[0] - B[0] * trunc_div(A[0], B[0])
            return r, r
        return (MIN, MAX)
    if op == "**":
        if B[1] < 0:
            if A == (0, 0):
                return None
            if A[0] == A[1] and A[0] in (1,):
                return 1, 1
            if A == (-1, -1):
                return (-1, 1) if B[0] != B[1] else ((-1, -1) if B[0] % 2 else (1, 1))
            return 0, 0
        if B == (0, 0):
            return 1, 1
        if B[0] == B[1] and B[0] <= 64 or A[0] == A[1] and abs(A[0]) <= 1:
            if A[0] == A[1] and abs(A[0]) <= 1:
                return (A[0], A[0]) if A[0] in (0, 1) else ((-1, 1) if B[0] != B[1] else ((-1, -1) if B[0] % 2 else (1, 1)))
            xs = [x ** B[0] for x in A]
            return min(xs), max(xs)
        if A[0] >= 2:
            return A[0] ** min(B[0], 70), None if B[1] > 70 else A[1] ** B[1]
        return None, None
    raise ValueError(op)


def opcodes(prog):
    """(operator enumerator qualified name, arity) -> opcode that is emitted for it"""
    out = {}
    writer = {}
    for f in prog.fns.values():
        if f.cls == "tiro::BytecodeWriter" and f.cfg is not None:
            es = {n.q for n in f.walk() if n.k == "enum" and n.q.startswith("tiro::BytecodeOp::")}
            if len(es) == 1:
                writer[f.usr] = next(iter(es))
    for f in prog.fns.values():
        if not f.relfile.startswith("src/compiler/bytecode_gen/") or f.cfg is None:
            continue
        for sw in switches(f):
            if sw.enum not in (IR + "BinaryOpType", IR + "UnaryOpType"):
                continue
            for k, b in sw.cases.items():
                seen, work, found = set(), [b], set()
                while work:
                    x = work.pop()
                    if x in seen or (x != b and x in sw.cases.values()):
                        continue
                    seen.add(x)
                    blk = f.cfg.blocks[x]
                    hit = False
                    for e in blk.elems:
                        n = f.nodes[e] if not isinstance(e, list) else None
                        if n is not None and n.k == "call":
                            for t in prog.targets(n):
                                if t.usr in writer:
                                    found.add(writer[t.usr])
                                    hit = True
                    if not hit and not blk.noreturn:
                        work += [s for s in blk.succ if s >= 0]
                if len(found) == 1:
                    out[k] = next(iter(found))
    return out
