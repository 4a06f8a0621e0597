"""Rules: child-visited: for every class of syntax tree nodes, do_traverse_children and do_mutate_children reach every child field on every path and call
the base class. same-order: both reach them in the same order. list-visited: the list helper calls back for every element. accessor: accessors and
setters use the field they are named after. dispatch: visit() and match() pass a node to the function of its own type, the default functions forward to
the function of the direct base class. pass-complete: every override in a semantic pass reaches every child that the pass has something to do for, unless the
child is missing, already marked as erroneous, or the function reports an error."""
import re

from ..absint import bare
from ..facts import AnalysisBroken
from ..flow import leaf
from ..guards import Engine, ctx_of
from ..must import Must
from .c30 import case_map, case_nodes, real_values
from ..paths import loop_bodies, position, switches, loop_conditions, every_iteration

T = "tiro::"
NODE = T + "AstNode"


def child_type(t):
    m = re.match(r"std::unique_ptr<(tiro::Ast\w+),", t) or re.match(r"tiro::AstNodeList<(tiro::Ast\w+)>", t)
    return m.group(1) if m else None


def path(c, n):
    p = c.path(n)
    if p and CANON[0] is not None:
        p = CANON[0].canon(c.fn, p) or p
    return (p or "").replace(".*", "")


CANON = [None]


class Tree:
    def __init__(self, prog):
        self.prog = prog
        self.classes = sorted(q for q in prog.records if q.startswith(T + "Ast") and prog.derives(q, NODE))
        if len(self.classes) < 30:
            raise AnalysisBroken("syntax tree classes not found")
        self.own = {q: [(f["n"], child_type(f["t"]), "AstNodeList" in f["t"]) for f in prog.records[q].fields if child_type(f["t"])] for q in self.classes}
        self.base = {q: next((b for b in prog.records[q].bases if b in self.classes), None) for q in self.classes}
        self.concrete = [q for q in self.classes if not any(self.base[x] == q for x in self.classes)]

    def chain(self, q):
        while q:
            yield q
            q = self.base[q]

    def fields(self, q):
        return [f for c in self.chain(q) for f in self.own[c]]

    def below(self, q):
        return [c for c in self.classes if q in self.chain(c)]

    def reach(self, q):
        """classes that can occur in a subtree whose root has type q"""
        seen, st = set(), [q]
        while st:
            x = st.pop()
            for c in self.below(x):
                if c not in seen:
                    seen.add(c)
                    st += [t for _, t, _ in self.own[c]]
                    st += [t for b in self.chain(c) for _, t, _ in self.own[b]]
        return seen


def events(M, f):
    return M.summary(f) or frozenset()


def mentions(path, field):
    n = field.rstrip("_")
    return path is not None and re.search(r"\bthis(\.\*)?\.%s(_\b|\(\))" % re.escape(n), path) is not None


def order_of(fn, field):
    """position of the first mention of the field in the order of the control flow graph"""
    n = field.rstrip("_")
    rpo = {b: i for i, b in enumerate(fn.cfg.rpo())}
    best = None
    for x in fn.nodes:
        if x is not None and (x.k == "member" and x.name in (field, n) or x.k == "call" and x.name == n):
            p = position(fn, x)
            if p is not None and p[0] in rpo:
                k = (rpo[p[0]], p[1])
                best = k if best is None or k < best else best
    return best


def traversals(prog, rep, tree, M):
    rep.rule("child-visited", "both generic traversals of a node class reach each child field unconditionally, and the base class")
    rep.rule("same-order", "both generic traversals reach the fields in the same order")
    for q in tree.classes:
        fs = {}
        for name in ("do_traverse_children", "do_mutate_children"):
            g = [f for f in prog.fns.values() if f.q == q + "::" + name and f.cfg is not None]
            if not g:
                if tree.own[q]:
                    rep.bad("child-visited", prog.records[q].d.get("f", "src/compiler/ast") if hasattr(prog.records[q], "d") else "src/compiler/ast", "%s|%s" % (q, name), "the class has child fields but does not override %s" % name)
                continue
            fs[name] = g[0]
            ev = events(M, g[0])
            for fld, t, lst in tree.own[q]:
                hit = [e for e in ev if e[0] not in ("get", "begin", "end", "items", fld, fld.rstrip("_")) and not str(e[0]).startswith(("ctor:", "std::", "operator->", "operator*", "__"))
                       and any(mentions(str(a), fld) for a in e[2:] if a is not None)]
                rep.check(bool(hit), "child-visited", g[0].loc, "%s|%s|%s" % (q, name, fld), "the child %s is not visited on every path" % fld)
            b = tree.base[q]
            if b and q != NODE:
                has = any(f.q == x + "::" + name for x in tree.chain(b) for f in prog.fns.values() if tree.own[x])
                called = any(c.name == name and any(t.cls == b or t.cls in tree.chain(b) and not any(h.cls in tree.chain(b) and h.cls not in tree.chain(t.cls) and h.q.endswith("::" + name) for h in prog.fns.values()) for t in prog.targets(c)) for c in g[0].calls())
                need = any(tree.own[x] for x in tree.chain(b))
                if need or called:
                    rep.check(called and any(e[0] == name for e in ev) or not need, "child-visited", g[0].loc, "%s|%s|base" % (q, name), "the children of the base class are not visited on every path")
        if len(fs) == 2 and len(tree.own[q]) > 1:
            o = [sorted((order_of(f, x[0]) or (10 ** 6, 0), x[0]) for x in tree.own[q]) for f in fs.values()]
            rep.check([x[1] for x in o[0]] == [x[1] for x in o[1]], "same-order", fs["do_mutate_children"].loc, q, "the traversals visit the children in different orders: %s and %s" % ([x[1] for x in o[0]], [x[1] for x in o[1]]))
    for name, inner in (("traverse_children", "do_traverse_children"), ("mutate_children", "do_mutate_children")):
        g = [f for f in prog.fns.values() if f.q == NODE + "::" + name and f.cfg is not None]
        if not g:
            raise AnalysisBroken("AstNode::%s not found" % name)
        for f in g:
            rep.check(any(e[0] == inner for e in events(M, f)), "child-visited", f.loc, name, "%s does not always call %s" % (name, inner))
    rep.rule("list-visited", "the list helper calls back once for each element")
    g = [f for f in prog.fns.values() if f.q.endswith("traverse_list") and f.relfile.startswith("src/compiler/ast/") and f.cfg is not None]
    if not g:
        raise AnalysisBroken("traverse_list not found")
    for f in g:
        ev = events(M, f)
        rep.check(any(e[0] in ("operator()",) and any("[each]" in str(a) for a in e[2:]) for e in ev), "list-visited", f.loc, f.usr[-60:], "the callback is not called for each element")


def accessors(prog, rep, tree, M):
    rep.rule("accessor", "accessors and setters of nodes use the field of the same name")
    for q in tree.classes:
        names = {f["n"] for f in prog.records[q].fields}
        for f in prog.fns.values():
            if f.cls != q or f.cfg is None or f.name + "_" not in names:
                continue
            other = {n.name for n in f.nodes if n is not None and n.k == "member" and n.name in names}
            if len(f.params) in (0, 1):
                rep.check(f.name + "_" in other, "accessor", f.loc, "%s|%d" % (f.q, len(f.params)), "the field %s_ is not used, but %s" % (f.name, sorted(other)))


def node_arg(f):
    if not f.params:
        return None
    m = re.search(r"NotNull<(?:const )?(tiro::Ast\w+)(?: const)? \*>", f.params[0].type)
    return m.group(1) if m else None


def dispatch(prog, rep, tree):
    rep.rule("dispatch", "nodes are passed to the function of their own type; defaults forward to the direct base")
    seen = 0
    for f in prog.fns.values():
        if f.cfg is None or f.q not in (T + "visit", T + "match") or not f.relfile.startswith("src/compiler/ast/"):
            continue
        vals = real_values(prog, T + "AstNodeType")
        for s in switches(f):
            if s.cond is None or bare(s.cond.type) not in (T + "AstNodeType", "int", "unsigned int"):
                continue
            cm = case_map(prog, s, T + "AstNodeType")
            for val in cm:
                if val not in vals:
                    continue
                tys = set()
                for n in case_nodes(f, s, cm, val):
                    if n.k == "call" and n.d.get("ck") != "ctor" and (n.name.startswith("visit_") or n.name == "operator()"):
                        for a in n.args[:1]:
                            m = re.search(r"NotNull<(?:const )?(tiro::Ast\w+)(?: const)? \*>", a.type or "")
                            t = prog.targets(n)
                            tt = node_arg(t[0]) if t else None
                            tys.add(tt if tt and n.name.startswith("visit_") else (m.group(1) if m else None))
                tys.discard(None)
                if not tys:
                    continue
                seen += 1
                wants = {T + "Ast" + name for name in vals[val]}
                ok = all(any(t == w or (w in tree.classes and t in tree.chain(w)) for w in wants) for t in tys)
                rep.check(ok, "dispatch", f.loc, "%s|%s" % (f.usr[-80:], vals[val][0]), "a node of type %s is passed to %s" % (vals[val][0], sorted(tys)))
    if not seen:
        raise AnalysisBroken("dispatch over node types not found")
    for f in prog.fns.values():
        if f.cfg is None or not f.cls or not f.cls.startswith(T + "DefaultNodeVisitor<") or not f.name.startswith("visit_"):
            continue
        k = node_arg(f)
        if k is None or tree.base.get(k) is None:
            continue
        to = set()
        for c in f.calls():
            if c.name.startswith("visit_"):
                for t in prog.targets(c):
                    to.add(node_arg(t))
        to.discard(None)
        if to or True:
            rep.check(to == {tree.base[k]}, "dispatch", f.loc, "default|%s|%s" % (f.cls[-50:], f.name), "the default forwards to %s instead of the base class %s" % (sorted(to), tree.base[k]))


LOOPS = ("CXXForRangeStmt", "ForStmt", "WhileStmt")


class Pass:
    def __init__(self, prog, rep, tree, M, eng, cls):
        self.prog, self.rep, self.tree, self.M, self.eng, self.cls = prog, rep, tree, M, eng, cls
        self.methods = {}
        for f in prog.fns.values():
            if f.cls == cls and f.name.startswith("visit_") and f.cfg is not None and node_arg(f):
                self.methods[node_arg(f)] = f
        self.memo = {}
        self.lead = {}
        self.single = {}
        self.plain = self.methods.get(NODE)

    def route(self, k):
        for c in self.tree.chain(k):
            if c in self.methods:
                return self.methods[c]
        return None

    def interesting(self, k):
        return any(self.route(c) not in (None, self.plain) for c in self.tree.reach(k))

    def generic(self, f, depth=0):
        """the function always passes all children of its node to the dispatch function of the pass"""
        if f is None or f.cfg is None or depth > 4:
            return False
        return self.covers(f, None, None, depth)

    def hits(self, f, field, ftype, depth, p0=None):
        """blocks in which the child is passed on, and whether only parts of the child are"""
        c = ctx_of(f)
        p0 = p0 or (f.params[0].name if f.params else None)
        whole, parts = set(), {}
        pre = re.compile(r"^%s@\d+:\d+(\.\*|\.get\(\))?" % re.escape(p0)) if p0 else None
        for n in f.nodes:
            if n is None or n.k != "call" or n.d.get("ck") == "ctor":
                continue
            pos = position(f, n)
            if pos is None:
                continue
            if n.name == "operator()" and depth < 6:
                for l in self.prog.targets(n) or []:
                    if l.outer is f and l.cfg is not None:      # a part of the function
                        w, ps = self.hits(l, field, ftype, depth + 1, p0)
                        if w and self.unconditional(l, w, field):
                            whole.add(pos[0])
                        for k, b in ps.items():
                            if self.unconditional(l, w | b, field):
                                parts.setdefault(k, set()).add(pos[0])
                continue
            if n.name in ("traverse_children",) and n.obj is not None and pre and pre.match(path(c, n.obj)):
                if self.dispatching(f, n):
                    whole.add(pos[0])
                continue
            mine = n.obj is None or n.obj.k == "this" or n.name.startswith("visit_") or path(c, n.obj).startswith("this")
            if not mine:
                continue
            for a in n.args:
                p = path(c, a)
                if not p or not pre:
                    continue
                m = pre.match(p)
                if not m:
                    continue
                rest = p[m.end():]
                if rest in ("", ".ptr_", ".get()"):
                    for t in self.prog.targets(n) or []:
                        if t is not f and t.cfg is not None and t.params and self.covers(t, field, ftype, depth + 1):
                            whole.add(pos[0])
                    continue
                if field is None:
                    continue
                fm = re.match(r"\.%s(_\b|\(\))(.*)$" % re.escape(field.rstrip("_")), rest)
                if not fm or n.name in ("get", "begin", "end", "size") or n.name.startswith("operator"):
                    continue
                if not self.leads(n, self.prog.targets(n)):
                    continue
                tail = fm.group(2)
                tail = re.sub(r"^(\.get\(\)|\.\*|\.ptr_)", "", tail)
                sub = re.match(r"(\[each\]|\[[^\]]*\]|\.get\([^()]*(?:\([^()]*\))?[^()]*\))?(\.\*|\.get\(\))?\.(\w+?)(_\b|\(\))", tail)
                if sub:
                    parts.setdefault(sub.group(3), set()).add(pos[0])
                else:
                    whole.add(pos[0])
                    if re.match(r"\.get\(", fm.group(2)) and not any(pos[0] in body for h, body, backs in loop_bodies(f)):
                        self.single.setdefault(f.usr, set()).add(pos[0])
        return whole, parts

    def leads(self, n, targets):
        """the call always ends in the dispatch function of the pass, except for missing and erroneous nodes"""
        for t in targets or []:
            if t.q in (T + "visit", T + "match"):
                return True
            if t.usr in self.lead:
                if self.lead[t.usr]:
                    return True
                continue
            self.lead[t.usr] = False
            if t.cfg is None or not t.relfile.startswith("src/compiler/semantics"):
                continue
            blocks = set()
            for c in t.calls():
                pos = position(t, c)
                if pos is not None and (c.name == "visit" and strip(c.q) == T + "visit" or self.leads(c, self.prog.targets(c))):
                    blocks.add(pos[0])
            if blocks and self.unconditional(t, blocks, None):
                self.lead[t.usr] = True
                return True
        return False

    def dispatching(self, f, n):
        for l in self.prog.fns.values():
            if l.outer is f and l.cfg is not None:
                for c in l.calls():
                    if self.leads(c, self.prog.targets(c)):
                        p = position(l, c)
                        ok = all(any("null" in str(x) or x[0] in ("t", "nonnull", "f") for x in e) for e in loop_conditions(self.eng, l, c)) if p else False
                        if self.unconditional(l, {p[0]} if p else set(), None):
                            return True
        return False

    def covers(self, f, field, ftype, depth=0):
        key = (f.usr, field)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        if depth > 6:
            return False
        whole, parts = self.hits(f, field, ftype, depth)
        ok = self.unconditional(f, whole, field) if whole else False
        if not ok and field is not None and ftype is not None:
            need = [(n, t) for n, t, _ in self.tree.fields(ftype) if self.interesting(t)]
            if parts and need:
                ok = all(self.unconditional(f, whole | parts.get(n.rstrip("_"), set()), field) for n, t in need)
        if not ok and whole and field is not None:
            ok = self.split(f, field, whole)
        self.memo[key] = ok
        return ok

    def split(self, f, field, whole):
        return False

    def error(self, f, b):
        """the block reports an error or does not return"""
        blk = f.cfg.blocks[b]
        if blk.noreturn:
            return True
        for e in blk.elems:
            n = f.nodes[e] if not isinstance(e, list) else None
            if n is not None and n.k == "call" and (n.name in ("report", "reportf", "vreportf") or n.name == "has_error" and len(n.args) == 1):
                return True
        return False

    def unconditional(self, f, blocks, field):
        """no path from the entry to the exit avoids the blocks, except where there is no child or an error"""
        cfg, c = f.cfg, ctx_of(f)
        fld = re.compile(r"\.%s(_\b|\(\))" % re.escape(field.rstrip("_"))) if field else None
        seen, st, loops = set(), [(None, cfg.entry)], set()
        single = False
        while st:
            a, b = st.pop()
            if b in loops and a in seen and a not in self.outside(f, b):
                return False
            if b in blocks and b in self.single.get(f.usr, ()):
                single = True
            if b in seen or b in blocks or self.error(f, b):
                continue
            seen.add(b)
            if b == cfg.exit:
                return False
            blk = cfg.blocks[b]
            cond, neg = leaf(f, blk)
            for i, s in enumerate(blk.succ):
                if s < 0:
                    continue
                if cond is not None and (blk.tk not in LOOPS or not blocks.isdisjoint(set(cfg.blocks) - self.outside(f, b))) and \
                        self.excuse(f, c, cond, (i == 0) != neg, fld, blk):
                    if blk.tk in LOOPS:
                        loops.add(b)
                        if not self.rest(f, c, cond, fld):
                            continue
                    else:
                        continue
                st.append((b, s))
        return bool(not single or loops)

    def outside(self, f, head):
        """blocks that are not part of the loop with this head"""
        for h, body, backs in loop_bodies(f):
            if h == head:
                return set(f.cfg.blocks) - set(body)
        return set(f.cfg.blocks)

    def excuse(self, f, c, cond, truth, fld, blk):
        if blk.tk in LOOPS:
            # leaving the loop over the list: all elements were passed
            if truth:
                return False
            t = " ".join(path(c, x) for x in cond.walk())
            return bool(cond.k != "bin" and fld and fld.search(t)) or (blk.tk == "CXXForRangeStmt" and self.over(f, blk, fld)) or self.bounded(f, c, cond, fld)
        if cond.k == "call" and cond.name == "has_error" and truth:
            return True
        null = r"(\.get\(\)|\.ptr_|\.operator bool\(\)|\[[^\]]*\]|\.get\([^()]*(\([^()]*\))?[^()]*\))*$"
        size = r"(\.size\(\)|\.empty\(\)|\.begin\(\)|\.end\(\))"
        what = (r"\w+@\d+:\d+" if fld is None else r"(\w+@\d+:\d+|this)" + fld.pattern.replace(r"(_\b|\(\))", r"(_\b|\(\))")) 
        if cond.k == "bin" and cond.op in ("==", "!=", ">", "<"):
            l, r = path(c, cond.child(0)), path(c, cond.child(1))
            lit = [x for x in (cond.child(0), cond.child(1)) if x is not None and any(y.k in ("null", "int") or y.k == "lit" or str(y.d.get("v", "")) == "0" for y in x.walk())]
            t = l if re.match(what, l) else r
            if not lit or not re.match("(" + what + ")" + size + "?" + null, t):
                return False
            return truth if cond.op == "==" else not truth
        p = path(c, cond)
        if re.match("(" + what + r")\.empty\(\)$", p):
            return truth
        if not p:
            p = next((path(c, x) for x in cond.walk() if path(c, x)), "") if cond.k in ("cast", "un") else ""
        return bool(re.match("(" + what + ")(" + size + ")?" + null, p)) and not truth

    def over(self, f, blk, fld):
        if fld is None:
            return False
        c = ctx_of(f)
        t = f.nodes[blk.term] if blk.term is not None else None
        if t is None:
            return False
        for x in t.walk():
            if fld.search(path(c, x)):
                return True
        return False

    def rest(self, f, c, cond, fld):
        """the loop ends before an element that must be passed after it"""
        if fld is None or cond.k != "bin":
            return False
        p = path(c, cond.child(1))
        return bool(p) and not (fld.search(p) and not re.search(r"[-/]", re.sub(r"@[\d:]+", "", p))) and self.bounded(f, c, cond, fld)

    def bounded(self, f, c, cond, fld):
        """i < P where the element P is passed after the loop, or P is the size of the list"""
        if fld is None or cond.k != "bin" or cond.op not in ("<", "!=") or not self.counter(f, cond.child(0)):
            return False
        p = path(c, cond.child(1))
        for n in f.nodes:
            if n is not None and n.k == "call" and n.name == "get" and len(n.args) == 1 and path(c, n.args[0]) == p and p:
                if n.obj is not None and fld.search(path(c, n.obj)):
                    return True
        return bool(fld.search(p)) and not re.search(r"[-/]", re.sub(r"@[\d:]+", "", p))

    def counter(self, f, n):
        while n is not None and n.k == "cast":
            n = n.child(0)
        return n is not None and n.k == "ref"


def strip(q):
    return re.sub(r"<.*", "", q or "")


def passes(prog, rep, tree, M):
    rep.rule("pass-complete", "an override of a semantic pass reaches every child with anything to do for the pass, except on errors")
    eng = Engine(prog)
    classes = {}
    for f in prog.fns.values():
        if f.cls and f.name == "visit_node" and f.cfg is not None and f.relfile.startswith("src/compiler/semantics") and not f.cls.startswith(T + "DefaultNodeVisitor"):
            classes[f.cls] = f
    if len(classes) < 3:
        raise AnalysisBroken("semantic passes not found")
    n = 0
    for cls in sorted(classes):
        P = Pass(prog, rep, tree, M, eng, cls)
        rep.check(P.covers(P.plain, None, None), "pass-complete", P.plain.loc, "%s|generic" % cls, "the generic function does not visit the children of every node")
        for k in tree.classes:
            f = P.route(k)
            if f is None or f is P.plain or k not in tree.concrete:
                continue
            if k not in [x for x in tree.below(node_arg(f))]:
                continue
            for fld, t, lst in tree.fields(k):
                if not P.interesting(t):
                    continue
                n += 1
                own = any(fld == x[0] for c in tree.chain(node_arg(f)) for x in tree.own[c])
                ok = P.covers(f, fld, t)
                rep.check(ok, "pass-complete", f.loc, "%s|%s|%s" % (cls, k, fld), "the child %s of %s is not always visited by %s" % (fld, k, f.name))
    if n < 30:
        raise AnalysisBroken("overrides of the semantic passes not found")


def run(prog, rep):
    rep.assumptions += ["the semantic passes that are decided are those derived from DefaultNodeVisitor with a generic visit_node; code generation from the tree is covered by C30 and C33"]
    tree = Tree(prog)
    M = CANON[0] = Must(prog)
    traversals(prog, rep, tree, M)
    accessors(prog, rep, tree, M)
    dispatch(prog, rep, tree)
    passes(prog, rep, tree, M)
