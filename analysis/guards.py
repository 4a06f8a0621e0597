"""Must-hold condition facts ("guards") over the control flow graphs.

A fact is a tuple:
  ("t", path)              path is truthy / non null / has a value
  ("f", path)              path is falsy / null / empty
  ("cmp", op, a, b)        a op b, op in < <= == !=      (a, b are paths or integer literals as strings)
Paths are canonical strings of side effect free expressions; variables are identified by their declaration, locals that are
initialised once from another path are replaced by that path, so that renaming or naming an intermediate value changes nothing.
"""
import re
from .model import Node

NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def strip_targs(q):
    """qualified name without template arguments"""
    if "<" not in q:
        return q
    out = []
    depth = 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith("operator", i) and (i == 0 or q[i - 1] in ": "):
            # keep operator symbols
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)?", q[i:])
            if depth == 0:
                out.append(m.group(0))
            i += len(m.group(0))
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


TRANSPARENT = {"std::move", "std::forward", "std::as_const", "tiro::vm::static_handle_cast", "std::addressof", "std::ref", "std::cref"}
# functions that take references to values which they do not modify
ACCESSORS = {"std::get", "std::get_if", "std::move", "std::forward", "std::begin", "std::end", "std::as_const"}
# wrappers that are constructed from a value and stand for it
WRAP_TYPES = ("tiro::vm::Handle<", "tiro::vm::MutHandle<", "tiro::vm::MaybeHandle<", "tiro::vm::MaybeMutHandle<", "tiro::NotNull<",
              "tiro::vm::OutHandle<", "tiro::vm::MaybeOutHandle<")


def is_empty_temp(n):
    while n is not None and n.k == "cast":
        n = n.child(0)
    if n is None:
        return False
    if n.k == "init":
        return not n.children
    return n.k == "call" and n.d.get("ck") == "ctor" and not n.args


class PathCtx:
    """computes canonical paths for one function"""

    def __init__(self, fn):
        self.fn = fn
        self._assigned = None
        self._init = None
        self._memo = {}

    def var_id(self, declidx):
        d = self.fn.decls[declidx]
        if d.kind == "global":
            return d.name
        owner = d.owner or self.fn.usr
        return "%s@%s" % (d.name, d.key)

    def _scan(self):
        """assigned: declarations that are modified after their initialisation; init: decl -> init node"""
        self._assigned = set()
        self._init = {}
        for n in self.fn.walk():
            if n.k == "decl":
                for v, i in n.d.get("vars", ()):
                    if i >= 0:
                        self._init[v] = self.fn.nodes[i]
            elif n.k == "bin" and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                l = n.child(0)
                if l is not None and l.k == "ref":
                    self._assigned.add(l.decl)
            elif n.k == "un" and n.op in ("++", "--"):
                l = n.child(0)
                if l is not None and l.k == "ref":
                    self._assigned.add(l.decl)
            elif n.k == "un" and n.op == "&":
                l = n.child(0)
                if l is not None and l.k == "ref" and not l.d.get("t", "").startswith("const "):
                    self._assigned.add(l.decl)
            elif n.k == "call":
                if n.d.get("ck") == "op" and n.op in ("=", "+=", "-=", "++", "--", "*=", "/=", "|=", "&=") and n.obj is not None and n.obj.k == "ref":
                    self._assigned.add(n.obj.decl)
                pt = n.d.get("pt") or []
                if n.name == "set" and n.d.get("cls", "").startswith("tiro::vm::"):
                    continue  # forwarding reference, the argument is only read
                if n.q in ACCESSORS:
                    continue
                for i, a in enumerate(n.args):
                    if a is not None and a.k == "ref" and i < len(pt) and pt[i].endswith("&") and not pt[i].startswith("const ") \
                            and not pt[i].endswith("&&"):
                        self._assigned.add(a.decl)
        # variables modified by lambdas that capture them by reference
        for ln, lf in self.fn.lambdas():
            byref = {c[0]: c[1] for c in ln.d.get("caps", ()) if c[2] and c[1] >= 0}
            if not byref:
                continue
            sub = ctx_of(lf)
            sub.scan()
            for di in sub._assigned:
                d = lf.decls[di]
                if d.owner:
                    for nm, outer in byref.items():
                        if self.fn.decls[outer].key == d.key:
                            self._assigned.add(outer)

    def scan(self):
        if self._assigned is None:
            self._assigned = set()  # recursion guard
            self._scan()

    def is_stable(self, declidx):
        self.scan()
        return declidx not in self._assigned

    def init_of(self, declidx):
        self.scan()
        return self._init.get(declidx)

    def path(self, n, depth=0):
        """canonical path of an expression or None"""
        if n is None or depth > 25:
            return None
        key = n.id
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = None
        r = self._path(n, depth)
        self._memo[key] = r
        return r

    def _path(self, n, depth):
        k = n.k
        P = lambda x: self.path(x, depth + 1)
        if n.value is not None and k not in ("ref", "call"):
            return str(n.value)
        if k == "ref":
            di = n.decl
            if di < 0:
                return n.name
            b = n.d.get("bind", -1)
            if b is not None and b >= 0:
                p = P(self.fn.nodes[b])
                if p:
                    return p
            d = self.fn.decls[di]
            if n.value is not None and d.kind in ("global", "static"):
                return str(n.value)
            if d.kind == "var" and self.is_stable(di):
                i = self.init_of(di)
                if i is not None:
                    p = P(i)
                    if p is not None:
                        return p
                elif d.owner:
                    # captured: resolve in the enclosing function
                    of = self.fn.prog.fns.get(d.owner)
                    if of is not None:
                        oc = ctx_of(of)
                        for j, od in enumerate(of.decls):
                            if od.key == d.key and od.kind == "var" and not od.owner:
                                if oc.is_stable(j) and oc.init_of(j) is not None:
                                    p = oc.path(oc.init_of(j), depth + 1)
                                    if p is not None:
                                        return p
            return self.var_id(di)
        if k == "this":
            return "this"
        if k == "member":
            b = n.child(0)
            if b is None or b.k == "this":
                return "this." + n.name
            p = P(b)
            if p is None:
                return None
            return p + (".*" if n.d.get("arrow") else "") + "." + n.name
        if k == "un":
            p = P(n.child(0))
            if p is None:
                return None
            if n.op == "*":
                return p[:-2] if p.endswith(".&") else p + ".*"
            if n.op == "&":
                return p[:-2] if p.endswith(".*") else p + ".&"
            if n.op in ("-", "~", "!", "+"):
                return n.op + "(" + p + ")"
            return None
        if k == "cast":
            return P(n.child(0))
        if k in ("lit", "zero"):
            return str(n.value) if n.value is not None else n.d.get("fv")
        if k == "nullptr":
            return "null"
        if k == "enum":
            return n.q
        if k == "str":
            return '"' + n.d.get("s", "") + '"'
        if k == "bin":
            if n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                return P(n.child(0))
            if n.op == ",":
                return P(n.child(1))
            a, b = P(n.child(0)), P(n.child(1))
            if a is None or b is None:
                return None
            return "(%s %s %s)" % (a, n.op, b)
        if k == "index":
            a, b = P(n.child(0)), P(n.child(1))
            if a is None or b is None:
                return None
            return "%s[%s]" % (a, b)
        if k == "call":
            q = strip_targs(n.q)
            args = n.args
            ck = n.d.get("ck")
            if ck == "ctor":
                t = n.d.get("cls", "")
                if len(args) == 1 and args[0] is not None:
                    return P(args[0]) if True else None
                if not args:
                    return None
                ps = [P(a) for a in args]
                if None in ps:
                    return None
                return "%s{%s}" % (t, ",".join(ps))
            if ck == "op":
                if n.op in ("->", "*") and n.obj is not None and not args:
                    p = P(n.obj)
                    return p + ".*" if p else None
                if n.op == "=" and n.obj is not None:
                    return P(n.obj)
                xs = ([n.obj] if n.obj is not None else []) + args
                ps = [P(a) for a in xs]
                if None in ps:
                    return None
                if n.op == "[]":
                    return "%s[%s]" % (ps[0], ",".join(ps[1:]))
                if len(ps) == 2:
                    return "(%s %s %s)" % (ps[0], n.op, ps[1])
                return "%s(%s)" % (n.op, ",".join(ps))
            if q in TRANSPARENT and len(args) == 1:
                return P(args[0])
            if q == "__builtin_expect":
                return P(args[0])
            ps = ["{}" if is_empty_temp(a) else P(a) for a in args]
            if None in ps:
                return None
            nm = n.name
            if n.obj is not None:
                o = P(n.obj)
                if o is None:
                    return None
                if n.d.get("arrow"):
                    o += ".*"
                if nm.startswith("operator "):
                    return o  # conversion operator
                ta = n.d.get("ta")
                return "%s.%s%s(%s)" % (o, nm, "<%s>" % ",".join(ta) if ta else "", ",".join(ps))
            if not q:
                return None
            ta = n.d.get("ta")
            return "%s%s(%s)" % (q, "<%s>" % ",".join(ta) if ta else "", ",".join(ps))
        if k == "init":
            c = n.children
            if len(c) == 1:
                return P(c[0])
            return None
        if k == "cond":
            ps = [P(x) for x in n.children]
            if None in ps:
                return None
            return "(%s ? %s : %s)" % tuple(ps)
        return None


_ctx = {}


def ctx_of(fn):
    c = _ctx.get(id(fn))
    if c is None:
        c = _ctx[id(fn)] = PathCtx(fn)
    return c


def cmp_atom(op, a, b):
    if op in (">", ">="):
        return ("cmp", SWAP[op], b, a)
    if op in ("==", "!=") and a > b:
        return ("cmp", op, b, a)
    return ("cmp", op, a, b)


def fact_text(f):
    if f[0] == "or":
        return fact_text(f[1]) + " " + fact_text(f[2])
    return " ".join(x for x in f[1:] if isinstance(x, str))


def norm(p):
    """drops dereference steps, so that p->x(), (*p).x() and p.get()->x() through handles compare equal"""
    if p is None:
        return None
    return p.replace(".*", "").replace(".&", "")


def norm_fact(f):
    if f[0] == "or":
        return ("or", norm_fact(f[1]), norm_fact(f[2]))
    if f[0] == "cmp":
        return cmp_atom(f[1], norm(f[2]), norm(f[3]))
    return (f[0], norm(f[1]))


def engaged(n):
    """the expression that is assigned to an optional is a plain value"""
    return n is not None and n.k not in ("init", "nullptr") and "optional" not in n.type and "nullopt" not in n.type and n.type != ""


def is_num(x):
    return bool(re.match(r"^-?\d+$", x or ""))


class Facts:
    """queries over a set of facts (paths are normalised)"""

    def __init__(self, st):
        self.dead = st is None
        self.f = set(norm_fact(x) for x in (st or ()))
        self.eq = {}
        for x in self.f:
            if x[0] == "cmp" and x[1] == "==":
                self.eq.setdefault(x[2], set()).add(x[3])
                self.eq.setdefault(x[3], set()).add(x[2])
        for _ in range(3):
            new = set()
            for x in self.f:
                if x[0] == "or":
                    if self.contradicted(x[1]):
                        new.add(x[2])
                    if self.contradicted(x[2]):
                        new.add(x[1])
            if new <= self.f:
                break
            self.f |= new

    def contradicted(self, x):
        if x[0] == "t":
            return self.false(x[1])
        if x[0] == "f":
            return self.true(x[1])
        if x[0] == "cmp":
            op, a, b = x[1], x[2], x[3]
            n = cmp_atom(NEG[op], a, b)
            if n in self.f:
                return True
            # a == 0 / a <= 0 contradicted by a > something
            for u, v in ((a, b), (b, a)):
                if u == "0" and op in ("==", "<=") and (op == "==" or v == a) and self.nonzero(v):
                    return True
        return False

    def same(self, a):
        r = {a}
        todo = [a]
        while todo:
            x = todo.pop()
            for y in self.eq.get(x, ()):
                if y not in r and not is_num(y):
                    r.add(y)
                    todo.append(y)
        return r

    def true(self, p):
        if self.dead:
            return True
        p = norm(p)
        return any(("t", q) in self.f or cmp_atom("==", q, "1") in self.f for q in self.same(p))

    def false(self, p):
        if self.dead:
            return True
        p = norm(p)
        return any(("f", q) in self.f or cmp_atom("==", q, "0") in self.f for q in self.same(p))

    def nonzero(self, p):
        if self.dead:
            return True
        p = norm(p)
        for q in self.same(p):
            if ("t", q) in self.f or cmp_atom("!=", q, "0") in self.f:
                return True
            for x in self.f:
                if x[0] == "cmp" and x[1] == "<" and x[3] == q and not x[2].startswith("-"):
                    return True
                if x[0] == "cmp" and x[1] == "<=" and x[3] == q and is_num(x[2]) and int(x[2]) > 0:
                    return True
        return False

    def has_cmp(self, op, a, b):
        if self.dead:
            return True
        a, b = norm(a), norm(b)
        for x in self.same(a):
            for y in self.same(b):
                if cmp_atom(op, x, y) in self.f:
                    return True
                if op in ("<=",) and (cmp_atom("<", x, y) in self.f or cmp_atom("==", x, y) in self.f):
                    return True
        return False

    def lt(self, a, b):
        """a < b provable, with one intermediate step"""
        if self.has_cmp("<", a, b):
            return True
        a, b = norm(a), norm(b)
        if is_num(a) and is_num(b):
            return int(a) < int(b)
        for x in self.f:
            if x[0] == "cmp" and x[1] in ("<", "<="):
                if x[2] in self.same(a) and self.has_cmp("<" if x[1] == "<=" else "<=", x[3], b):
                    return True
        if is_num(a):
            for x in self.f:
                if x[0] == "cmp" and x[3] in self.same(b) and is_num(x[2]):
                    if x[1] == "<" and int(a) <= int(x[2]) or x[1] == "<=" and int(a) < int(x[2]) or x[1] == "==" and int(a) < int(x[2]):
                        return True
                if x[0] == "cmp" and x[1] == "==" and x[2] in self.same(b) and is_num(x[3]) and int(a) < int(x[3]):
                    return True
            if int(a) == 0 and self.nonzero(b):
                return True
        return False

    def upper(self, a):
        """smallest known constant upper bound"""
        a = norm(a)
        best = None
        for q in self.same(a):
            if is_num(q):
                best = int(q) if best is None else min(best, int(q))
            for x in self.f:
                if x[0] != "cmp":
                    continue
                v = None
                if x[1] == "<" and x[2] == q and is_num(x[3]):
                    v = int(x[3]) - 1
                elif x[1] == "<=" and x[2] == q and is_num(x[3]):
                    v = int(x[3])
                elif x[1] == "==" and q in (x[2], x[3]):
                    o = x[3] if x[2] == q else x[2]
                    if is_num(o):
                        v = int(o)
                if v is not None:
                    best = v if best is None else min(best, v)
        return best


class Guards:
    """facts of one function"""

    def __init__(self, fn, engine):
        self.fn = fn
        self.engine = engine
        self.pc = ctx_of(fn)
        self._in = None
        self._pos = None

    # ---- atoms -------------------------------------------------------------------------------
    def atoms(self, n, truth, depth=0):
        """facts that hold when expression n evaluates to truth"""
        out = set()
        if n is None or depth > 12:
            return out
        k = n.k
        if k == "cast":
            return self.atoms(n.child(0), truth, depth + 1)
        if k == "un" and n.op == "!":
            return self.atoms(n.child(0), not truth, depth + 1)
        if k == "bin" and n.op == "&&":
            if truth:
                return self.atoms(n.child(0), True, depth + 1) | self.atoms(n.child(1), True, depth + 1)
            return self._or(self.atoms(n.child(0), False, depth + 1), self.atoms(n.child(1), False, depth + 1))
        if k == "bin" and n.op == "||":
            if not truth:
                return self.atoms(n.child(0), False, depth + 1) | self.atoms(n.child(1), False, depth + 1)
            return self._or(self.atoms(n.child(0), True, depth + 1), self.atoms(n.child(1), True, depth + 1))
        if k == "bin" and n.op == ",":
            return self.atoms(n.child(1), truth, depth + 1)
        if k == "call" and n.q == "__builtin_expect":
            return self.atoms(n.args[0], truth, depth + 1)
        if k == "cond":
            # c ? x : false
            c, a, b = n.child(0), n.child(1), n.child(2)
            if truth and b is not None and b.value == 0:
                return self.atoms(c, True, depth + 1) | self.atoms(a, True, depth + 1)
            if not truth and b is not None and b.value not in (None, 0):
                return self.atoms(c, True, depth + 1) | self.atoms(a, False, depth + 1)
            if truth and a is not None and a.value == 0:
                return self.atoms(c, False, depth + 1) | self.atoms(b, True, depth + 1)
            if not truth and a is not None and a.value not in (None, 0):
                return self.atoms(c, False, depth + 1) | self.atoms(b, False, depth + 1)
        op = None
        if k == "bin" and n.op in NEG:
            op, l, r = n.op, n.child(0), n.child(1)
        elif k == "call" and n.d.get("ck") == "op" and n.op in NEG:
            xs = ([n.obj] if n.obj is not None else []) + n.args
            if len(xs) == 2:
                op, l, r = n.op, xs[0], xs[1]
        if op:
            if not truth:
                op = NEG[op]
            a, b = self.pc.path(l), self.pc.path(r)
            if a is not None and b is not None:
                if b == "null" or a == "null" or b == "0" and l.type.endswith("*"):
                    p = a if b in ("null", "0") else b
                    out.add(("t", p) if op == "!=" else ("f", p))
                else:
                    out.add(cmp_atom(op, a, b))
                    # boolean comparisons with constants
                    if l.type == "bool" and b in ("0", "1") and op in ("==", "!="):
                        out |= self.atoms(l, (b == "1") == (op == "=="), depth + 1)
            return out
        if k == "ref" and n.decl >= 0:
            d = self.fn.decls[n.decl]
            if d.kind == "var" and self.pc.is_stable(n.decl):
                i = self.pc.init_of(n.decl)
                if i is not None and i is not n:
                    out |= self.atoms(i, truth, depth + 1)
        if k == "call" and n.q:
            out |= self.engine.call_facts(self, n, truth)
        p = self.pc.path(n)
        if p is not None:
            out.add(("t", p) if truth else ("f", p))
        if k == "bin" and n.op == "=":
            out |= self.atoms(n.child(1), truth, depth + 1)
        return out

    @staticmethod
    def _or(a, b):
        out = set(a & b)
        if len(a) <= 4 and len(b) <= 4:
            for x in a:
                for y in b:
                    if x != y and x[0] != "or" and y[0] != "or":
                        out.add(("or",) + tuple(sorted((x, y), key=str)))
        return out

    # ---- dataflow ----------------------------------------------------------------------------
    @staticmethod
    def mentions(fact, v):
        if fact[0] == "or":
            return Guards.mentions(fact[1], v) or Guards.mentions(fact[2], v)
        for x in fact[1:]:
            if isinstance(x, str) and v in x:
                return True
        return False

    def transfer_elem(self, st, e):
        if isinstance(e, list):
            return st
        n = self.fn.nodes[e]
        if n is None:
            return st
        k = n.k
        kill = None
        gen = None
        if k == "bin" and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            kill = self.lpath(n.child(0))
            if n.op == "=":
                gen = (kill, n.child(1), False)
        elif k == "un" and n.op in ("++", "--"):
            kill = self.lpath(n.child(0))
        elif k == "call":
            kills = []
            if n.d.get("ck") == "op" and n.op in ("=", "+=", "-=", "++", "--", "*=", "/=") and n.obj is not None:
                kills.append(self.lpath(n.obj))
                if n.op == "=" and n.args:
                    gen = (kills[0], n.args[0], n.obj.type.startswith("std::optional<") and engaged(n.args[0]))
            pt = (n.d.get("pt") or []) if n.q not in ACCESSORS else []
            for i, a in enumerate(n.args):
                if a is not None and i < len(pt) and pt[i].endswith("&") and not pt[i].startswith("const ") and not pt[i].endswith("&&"):
                    if a.k == "ref" and a.d.get("lv"):
                        kills.append(self.lpath(a))
            for kp in kills:
                if kp:
                    st = frozenset(f for f in st if not self.mentions(f, kp))
            if n.q:
                post = self.engine.call_facts(self, n, None)
                if post:
                    st = st | post
        elif k == "decl":
            for v, i in n.d.get("vars", ()):
                vid = self.pc.var_id(v)
                st = frozenset(f for f in st if not self.mentions(f, vid))
        if kill:
            st = frozenset(f for f in st if not self.mentions(f, kill))
        if gen and gen[0]:
            lp, rhs = gen[0], gen[1]
            rp = self.pc.path(rhs)
            if rp is not None and lp not in rp:
                new = set()
                for f in st:
                    if f[0] in ("t", "f") and f[1] == rp:
                        new.add((f[0], lp))
                    if f[0] == "cmp" and (f[2] == rp or f[3] == rp):
                        new.add(("cmp", f[1], lp if f[2] == rp else f[2], lp if f[3] == rp else f[3]))
                new.add(("cmp", "==", *sorted((lp, rp))))
                if rhs is not None and rhs.k in ("new",):
                    new.add(("t", lp))
                st = st | new
            if gen[2]:
                st = st | {("t", lp)}
        return st

    def lpath(self, n):
        if n is None:
            return None
        if n.k == "ref" and n.decl >= 0:
            return self.pc.var_id(n.decl)
        return self.pc.path(n)

    def compute(self):
        if self._in is not None:
            return
        cfg = self.fn.cfg
        self._in = {}
        self._pos = {}
        if cfg is None:
            return
        ALL = None  # top
        order = cfg.rpo()
        entry_facts = frozenset(self.engine.entry_facts(self.fn))
        for b in cfg.blocks.values():
            for i, e in enumerate(b.elems):
                if not isinstance(e, list) and e not in self._pos:
                    self._pos[e] = (b.id, i)
        reach = set(order)
        for b in cfg.blocks:
            if b not in reach:
                order.append(b)
        IN = {b: ALL for b in cfg.blocks}
        IN[cfg.entry] = entry_facts
        for b in cfg.blocks:
            if b not in reach and not cfg.blocks[b].pred and (cfg.blocks[b].tk == "CXXTryStmt" or cfg.blocks[b].label is not None):
                IN[b] = entry_facts if self.fn.flag("lam") else frozenset()
        changed = True
        it = 0
        edge = {}
        # disjunctions that hold at joins of two conditional branches
        join_or = {}
        for s, blk in cfg.blocks.items():
            ps = []
            for p in set(blk.pred):
                pb = cfg.blocks[p]
                for idx, x in enumerate(pb.succ):
                    if x == s:
                        ps.append((pb, idx))
            if len(ps) == 2:
                a = self.edge_facts(ps[0][0], ps[0][1], s)
                b = self.edge_facts(ps[1][0], ps[1][1], s)
                if a and b:
                    join_or[s] = frozenset(self._or(a, b))
        while changed and it < 40:
            changed = False
            it += 1
            for b in order:
                if IN[b] is ALL:
                    continue
                blk = cfg.blocks[b]
                st = IN[b]
                for e in blk.elems:
                    st = self.transfer_elem(st, e)
                if blk.noreturn:
                    continue
                for idx, s in enumerate(blk.succ):
                    if s < 0:
                        continue
                    key = (b, idx)
                    ef = edge.get(key)
                    if ef is None:
                        ef = edge[key] = self.edge_facts(blk, idx, s)
                    out = st | ef if ef else st
                    if s in join_or:
                        out = out | join_or[s]
                    cur = IN[s]
                    new = out if cur is ALL else cur & out
                    if s == cfg.entry:
                        continue
                    if new != cur:
                        IN[s] = new
                        changed = True
        self._in = IN

    def edge_facts(self, blk, idx, s):
        cfg = self.fn.cfg
        if blk.tk == "SwitchStmt" and blk.cond is not None:
            lb = cfg.blocks[s].label
            if lb is not None:
                ln = self.fn.nodes[lb]
                if ln.k == "case" and ln.child(0) is not None:
                    p = self.pc.path(self.fn.nodes[blk.cond])
                    v = self.pc.path(ln.child(0))
                    if p is not None and v is not None and len([1 for x in cfg.blocks[s].pred]) >= 1:
                        return frozenset([("cmp", "==", *sorted((p, v)))])
            return frozenset()
        if len(blk.succ) == 2 and blk.cond is not None:
            c = self.fn.nodes[blk.cond]
            # the block evaluates only the last operand of a short circuit condition
            while c.k == "bin" and c.op in ("&&", "||") and c.id not in blk.elems:
                c = c.child(1)
            return frozenset(self.atoms(c, idx == 0))
        return frozenset()

    def at(self, n):
        """facts that hold before the evaluation of node n"""
        self.compute()
        cur = n
        while cur is not None and cur.id not in self._pos:
            cur = cur.parent
        if cur is None:
            return frozenset()
        b, i = self._pos[cur.id]
        st = self._in.get(b)
        if st is None:
            return None  # unreachable
        for e in self.fn.cfg.blocks[b].elems[:i]:
            st = self.transfer_elem(st, e)
        return st

    def at_block_edge(self, blk, idx):
        """facts on the edge from blk to its successor number idx"""
        self.compute()
        st = self._in.get(blk.id)
        if st is None:
            return None
        for e in blk.elems:
            st = self.transfer_elem(st, e)
        return st | frozenset(self.edge_facts(blk, idx, blk.succ[idx]))

    def at_exit(self):
        self.compute()
        cfg = self.fn.cfg
        if cfg is None:
            return frozenset()
        return self._in.get(cfg.exit)

    def returns(self):
        """[(return node, facts)]"""
        self.compute()
        r = []
        for n in self.fn.walk():
            if n.k == "return":
                st = self.at(n)
                if st is not None:
                    r.append((n, st))
        return r


class Engine:
    """interprocedural part: facts implied by calls of helper functions, facts at the entry of lambdas"""

    def __init__(self, prog, sync_callees=(), maxdepth=3):
        self.prog = prog
        self.g = {}
        self.summ = {}
        self.sync_callees = sync_callees
        self.depth = 0
        self.maxdepth = maxdepth
        self._entry = {}
        self._lamsite = None

    def guards(self, fn):
        g = self.g.get(fn.usr)
        if g is None:
            g = self.g[fn.usr] = Guards(fn, self)
        return g

    def entry_facts(self, fn):
        """facts known where a lambda is created (valid when it runs synchronously and captured variables do not change)"""
        if not fn.flag("lam"):
            return frozenset()
        if fn.usr in self._entry:
            return self._entry[fn.usr]
        self._entry[fn.usr] = frozenset()
        if self._lamsite is None:
            self._lamsite = {}
            for f in self.prog.fns.values():
                for n in f.d["nodes"]:
                    if n and n.get("k") == "lambda":
                        self._lamsite[n["u"]] = (f, n)
        site = self._lamsite.get(fn.usr)
        if not site:
            return frozenset()
        of, _ = site
        ln = next((n for n in of.walk() if n.k == "lambda" and n.d["u"] == fn.usr), None)
        g = self.guards(of)
        if g._in is None and getattr(g, "_busy", False):
            return frozenset()
        st = g.at(ln)
        if st is None:
            st = frozenset()
        # only facts about stable things
        self._entry[fn.usr] = st
        return st

    def summary(self, fn, truth):
        """facts over parameters that hold when fn returns `truth` (None: returns at all)"""
        key = (fn.usr, truth)
        if key in self.summ:
            return self.summ[key]
        self.summ[key] = frozenset()
        if self.depth >= self.maxdepth or fn.cfg is None or len(fn.cfg.blocks) > 60:
            return frozenset()
        self.depth += 1
        try:
            g = self.guards(fn)
            acc = None
            if truth is None:
                st = g.at_exit()
                acc = st if st is not None else frozenset()
            else:
                for n, st in g.returns():
                    v = n.child(0)
                    if v is None:
                        continue
                    if v.value is not None and bool(v.value) != truth:
                        continue
                    if v.k == "call" and v.d.get("ck") == "ctor" and not v.args and truth:
                        continue  # empty optional / null
                    if v.k in ("nullptr", "zero") and truth:
                        continue
                    s = st | g.atoms(v, truth)
                    acc = s if acc is None else acc & s
                acc = acc or frozenset()
            ids = [g.pc.var_id(p.id) for p in fn.params]
            stable = [g.pc.is_stable(p.id) for p in fn.params]
            res = set()
            for f in acc:
                txt = fact_text(f)
                vars_ = set(re.findall(r"[A-Za-z_0-9]+@\d+:\d+", txt))
                if vars_ <= {i for i, s in zip(ids, stable) if s} and (vars_ or "this" in txt):
                    res.add(f)
            self.summ[key] = frozenset(res)
        finally:
            self.depth -= 1
        return self.summ[key]

    def call_facts(self, g, call, truth):
        r = set()
        u = call.d.get("u")
        fn = self.prog.fns.get(u) if u else None
        if fn is None or call.d.get("virt"):
            return r
        if fn.flag("lam") or len(fn.d["nodes"]) > 600:
            return r
        if truth is not None and fn.ret not in ("bool", "_Bool") and not fn.ret.startswith("std::optional") and not fn.ret.endswith("*"):
            return r
        s = self.summary(fn, truth)
        if not s:
            return r
        m = {}
        for p, a in zip(fn.params, call.args):
            m[ctx_of(fn).var_id(p.id)] = g.pc.path(a) if a is not None else None
        thisp = None
        if call.obj is not None:
            thisp = g.pc.path(call.obj)
            if thisp is not None and call.d.get("arrow"):
                thisp += ".*"
        for f in s:
            ok = True

            def sub(x):
                nonlocal ok
                if not isinstance(x, str):
                    return x
                def rp(mo):
                    nonlocal ok
                    v = m.get(mo.group(0))
                    if v is None:
                        ok = False
                        return "?"
                    return v
                y = re.sub(r"[A-Za-z_0-9]+@\d+:\d+", rp, x)
                if re.search(r"\bthis\b", y):
                    if call.obj is None or thisp is None:
                        if call.obj is not None or not re.search(r"\bthis\b", x):
                            pass
                        ok = ok and call.obj is not None and thisp is not None
                    if thisp and thisp != "this":
                        y = re.sub(r"\bthis\b(?=\.|$|\))", lambda _: thisp, y)
                return y
            def subf(f):
                if f[0] == "or":
                    return ("or",) + tuple(sorted((subf(f[1]), subf(f[2])), key=str))
                if f[0] == "cmp":
                    return cmp_atom(f[1], sub(f[2]), sub(f[3]))
                return (f[0], sub(f[1]))
            nf = subf(f)
            if ok:
                r.add(nf)
        return r
