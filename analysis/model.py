"""Program model over the extracted facts: functions, expression nodes, control flow graphs, records."""
import json, os, re, sys
from collections import defaultdict, deque
from . import facts
from .facts import AnalysisBroken


class Node:
    __slots__ = ("fn", "id", "k", "d", "parent")

    def __init__(self, fn, id, d):
        self.fn = fn
        self.id = id
        self.d = d
        self.k = d["k"]
        self.parent = None

    def __repr__(self):
        return "<%s#%d %s l%d>" % (self.k, self.id, self.d.get("q") or self.d.get("n") or self.d.get("op") or "", self.line)

    @property
    def line(self):
        return self.d.get("l", 0)

    @property
    def type(self):
        return self.d.get("t", "")

    @property
    def q(self):
        return self.d.get("q", "")

    @property
    def name(self):
        n = self.d.get("n")
        if n is None:
            n = self.q.rsplit("::", 1)[-1]
        return n

    @property
    def op(self):
        return self.d.get("op", "")

    @property
    def value(self):
        v = self.d.get("v")
        return int(v) if v is not None else None

    @property
    def macro(self):
        return self.d.get("mac")

    def child(self, i):
        c = self.d.get("c")
        if not c or i >= len(c) or c[i] < 0:
            return None
        return self.fn.nodes[c[i]]

    @property
    def children(self):
        return [self.fn.nodes[i] for i in self.d.get("c", ()) if i >= 0]

    @property
    def args(self):
        return [self.fn.nodes[i] if i >= 0 else None for i in self.d.get("c", ())]

    @property
    def obj(self):
        o = self.d.get("obj", -1)
        return self.fn.nodes[o] if o is not None and o >= 0 else None

    @property
    def fnexpr(self):
        o = self.d.get("fn", -1)
        return self.fn.nodes[o] if o is not None and o >= 0 else None

    @property
    def decl(self):
        """declaration id (local to the function) of a ref node"""
        return self.d.get("d", -1)

    def subnodes(self):
        """direct sub nodes including object expressions"""
        r = []
        o = self.obj
        if o is not None:
            r.append(o)
        f = self.fnexpr
        if f is not None:
            r.append(f)
        b = self.d.get("bind", -1)
        if b is not None and b >= 0:
            r.append(self.fn.nodes[b])
        r.extend(self.children)
        g = self.d.get("rng", -1)
        if g is not None and g >= 0:
            r.append(self.fn.nodes[g])
        return r

    def walk(self):
        seen = set()
        st = [self]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            yield n
            st.extend(reversed(n.subnodes()))

    @property
    def loc(self):
        return "%s:%d" % (self.fn.relfile, self.line)

    def text(self, depth=6):
        """approximate source form, used in messages only"""
        if depth <= 0:
            return "..."
        k = self.k
        T = lambda n: n.text(depth - 1) if n is not None else "?"
        if k == "call":
            a = ", ".join(T(x) for x in self.args)
            if self.d.get("ck") == "op" and self.obj is not None:
                if self.op in ("->", "*") and not self.args:
                    return ("*" if self.op == "*" else "") + T(self.obj) + ("->" if self.op == "->" else "")
                return "%s%s%s" % (T(self.obj), self.op, "(" + a + ")" if self.op in ("()", "[]") else a)
            if self.obj is not None:
                return "%s.%s(%s)" % (T(self.obj), self.name, a)
            if self.d.get("ck") == "ctor":
                return "%s{%s}" % (self.d.get("cls", ""), a)
            return "%s(%s)" % (self.q or T(self.fnexpr), a)
        if k in ("ref", "enum"):
            return self.name
        if k == "fnref":
            return self.q
        if k == "member":
            b = self.child(0)
            return (T(b) + "." if b is not None and b.k != "this" else "") + self.name
        if k == "bin":
            return "%s %s %s" % (T(self.child(0)), self.op, T(self.child(1)))
        if k == "un":
            return "%s%s" % (self.op, T(self.child(0)))
        if k == "lit":
            return str(self.d.get("v", self.d.get("fv", "?")))
        if k == "str":
            return '"%s"' % self.d.get("s", "")
        if k == "cast":
            return T(self.child(0))
        if k == "this":
            return "this"
        if k == "index":
            return "%s[%s]" % (T(self.child(0)), T(self.child(1)))
        if k == "return":
            return "return " + (T(self.child(0)) if self.child(0) is not None else "")
        return "<%s>" % k


class Decl:
    __slots__ = ("id", "kind", "name", "type", "line", "owner", "key")

    def __init__(self, id, d):
        self.id = id
        self.kind = d["k"]
        self.name = d["n"]
        self.type = d["t"]
        self.line = d["l"]
        self.owner = d.get("o")
        self.key = d.get("key")


class Block:
    __slots__ = ("id", "elems", "succ", "pred", "term", "tk", "cond", "label", "noreturn", "to", "fn")

    def __init__(self, fn, d):
        self.fn = fn
        self.id = d["i"]
        self.elems = d["e"]
        self.succ = [s for s in d["s"]]
        self.pred = []
        self.term = d.get("t")
        self.tk = d.get("tk")
        self.to = d.get("to")
        self.cond = d.get("c")
        self.label = d.get("lb")
        self.noreturn = bool(d.get("nr"))


class Cfg:
    def __init__(self, fn, d):
        self.fn = fn
        self.entry = d["entry"]
        self.exit = d["exit"]
        self.blocks = {b["i"]: Block(fn, b) for b in d["b"]}
        for b in self.blocks.values():
            for s in b.succ:
                if s >= 0:
                    self.blocks[s].pred.append(b.id)

    def rpo(self):
        seen = set()
        out = []

        st = [(self.entry, iter(self.blocks[self.entry].succ))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.usr = d["u"]
        self.q = d["q"]
        self.name = d.get("n", d["q"].rsplit("::", 1)[-1])
        self.full = d.get("full", self.q)
        self.file = d["f"]
        self.line = d["l"]
        self.endline = d.get("el", 0)
        self.ret = d.get("ret", "")
        self.cls = d.get("cls")
        self.kind = d["kind"]
        self._nodes = None
        self._cfg = None
        self._decls = None

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.full, self.relfile, self.line)

    @property
    def relfile(self):
        return self.prog.rel(self.file)

    @property
    def loc(self):
        return "%s:%d" % (self.relfile, self.line)

    def flag(self, f):
        return bool(self.d.get(f))

    @property
    def nodes(self):
        if self._nodes is None:
            self._nodes = [Node(self, i, d) if d else None for i, d in enumerate(self.d["nodes"])]
            for n in self._nodes:
                if n is None:
                    continue
                for s in n.subnodes():
                    if s.parent is None and s is not n:
                        s.parent = n
        return self._nodes

    @property
    def decls(self):
        if self._decls is None:
            self._decls = [Decl(i, d) for i, d in enumerate(self.d["decls"])]
        return self._decls

    @property
    def params(self):
        return [self.decls[i] for i in self.d.get("p", ())]

    @property
    def body(self):
        return self.nodes[self.d["body"]]

    @property
    def cfg(self):
        if self._cfg is None:
            c = self.d.get("cfg")
            if not c:
                return None
            self._cfg = Cfg(self, c)
        return self._cfg

    @property
    def outer(self):
        return self.prog.fns.get(self.d.get("outer"))

    def calls(self):
        return [n for n in self.nodes if n is not None and n.k == "call"]

    def walk(self):
        """all nodes (of this function only, lambda bodies are separate functions)"""
        return [n for n in self.nodes if n is not None]

    def lambdas(self):
        r = []
        for n in self.nodes:
            if n is not None and n.k == "lambda":
                f = self.prog.fns.get(n.d["u"])
                if f:
                    r.append((n, f))
                for f in self.prog.generic_lambdas().get(n.d["u"], ()):
                    r.append((n, f))
        return r


class Record:
    def __init__(self, d):
        self.d = d
        self.q = d["q"]
        self.t = d["t"]
        self.file = d["f"]
        self.line = d["l"]
        self.bases = d["bases"]
        self.fields = d["fields"]
        self.methods = d["methods"]
        self.alias = d.get("alias", {})
        self.tmpl = d.get("tmpl")
        self.targs = d.get("ta", [])


class Program:
    def __init__(self, repo=None, files=None):
        self.repo = repo or facts.REPO
        self.fns = {}
        self.inits = {}
        self.records = {}
        self.enums = {}
        self.vars = {}
        self.tus = []
        for f in files or facts.extract(self.repo):
            self._load(f)
        self.by_q = defaultdict(list)
        for f in self.fns.values():
            self.by_q[f.q].append(f)
        self._overriders = None
        self._callers = None
        if not self.fns:
            raise AnalysisBroken("no functions extracted")
        bad = [t["f"] for t in self.tus if t.get("errors")]
        if bad:
            raise AnalysisBroken("does not compile: %s" % ", ".join(bad))

    def rel(self, f):
        return f[len(self.repo) + 1:] if f.startswith(self.repo + "/") else f

    def _load(self, path):
        with open(path, "r") as fh:
            for line in fh:
                if line.startswith('{"kind":"fn","u":"'):
                    e = line.index('","q":"', 18)
                    key = line[18:e]
                    if key in self.fns or key in self._raw_seen:
                        continue
                    d = json.loads(line)
                    self._raw_seen.add(key)
                    self.fns[d["u"]] = Fn(self, d)
                    continue
                d = json.loads(line)
                k = d["kind"]
                if k == "init":
                    self.inits.setdefault(d["u"], Fn(self, d))
                elif k == "rec":
                    self.records.setdefault(d["t"], Record(d))
                elif k == "enum":
                    self.enums.setdefault(d["t"], d)
                elif k == "var":
                    self.vars.setdefault((d["u"], d["f"], d["l"]), d)
                elif k == "tu":
                    self.tus.append(d)

    _raw_seen = None

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o._raw_seen = set()
        return o

    # ---- types -------------------------------------------------------------
    def bases_of(self, t, seen=None):
        """all transitive base class types"""
        seen = seen if seen is not None else set()
        r = self.records.get(t)
        if r:
            for b in r.bases:
                if b not in seen:
                    seen.add(b)
                    self.bases_of(b, seen)
        return seen

    def derives(self, t, base):
        return t == base or base in self.bases_of(t)

    # ---- call graph ---------------------------------------------------------
    @property
    def overriders(self):
        if self._overriders is None:
            self._overriders = defaultdict(set)
            for f in self.fns.values():
                for o in f.d.get("ov", ()):
                    self._overriders[o].add(f.usr)
            ch = True
            while ch:
                ch = False
                for k in list(self._overriders):
                    for o in list(self._overriders[k]):
                        for x in self._overriders.get(o, ()):
                            if x not in self._overriders[k]:
                                self._overriders[k].add(x)
                                ch = True
        return self._overriders

    def targets(self, call):
        """possible target functions (definitions) of a call node"""
        u = call.d.get("u")
        if not u:
            return []
        r = []
        f = self.fns.get(u)
        if f:
            r.append(f)
        if call.d.get("virt") and not call.d.get("qual"):
            for o in self.overriders.get(u, ()):
                r.append(self.fns[o])
        return r

    def generic_lambdas(self):
        """usr of a generic lambda -> its instantiations"""
        if self._generic is None:
            self._generic = defaultdict(list)
            for f in self.fns.values():
                if f.usr.startswith("lambda@") and "<" in f.usr and f.usr.endswith(">"):
                    m = re.match(r"(.*@\d+:\d+)<", f.usr)
                    if m:
                        self._generic[m.group(1)].append(f)
        return self._generic

    _generic = None

    def find(self, q, one=True):
        r = self.by_q.get(q, [])
        if one:
            if not r:
                raise AnalysisBroken("anchor function %s not found" % q)
            return r[0]
        return r

    def in_dir(self, *dirs):
        return [f for f in self.fns.values() if any(f.relfile.startswith(d) for d in dirs)]

    def callers(self):
        """usr -> [(fn, callnode)]"""
        if self._callers is None:
            self._callers = defaultdict(list)
            for f in self.fns.values():
                for c in f.calls():
                    u = c.d.get("u")
                    if u:
                        self._callers[u].append((f, c))
        return self._callers


_prog = None


def load(repo=None):
    global _prog
    if _prog is None or repo:
        _prog = Program(repo)
    return _prog
