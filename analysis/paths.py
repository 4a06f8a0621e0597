"""Event sequences along control flow paths, switch tables, value origins."""
from .facts import AnalysisBroken
from .guards import ctx_of, strip_targs


def lookup_case(fn, lb):
    """(kind, value) of a block label node"""
    n = fn.nodes[lb]
    if n.k == "case":
        c = n.child(0)
        while c is not None and c.k == "cast":
            c = c.child(0)
        if c is None:
            return ("case", None)
        local = "(" in c.q.replace("(anonymous namespace)", "")      # enums declared in functions
        return ("case", c.q if c.k == "enum" and not local else c.value)
    return (n.k, None)


class Switch:
    def __init__(self, fn, blk):
        self.fn = fn
        self.blk = blk
        self.cond = fn.nodes[blk.cond] if blk.cond is not None else None
        self.cases = {}
        self.default = None
        self.falls_out = None
        cfg = fn.cfg
        for s in blk.succ:
            if s < 0:
                continue
            lb = cfg.blocks[s].label
            if lb is None:
                self.falls_out = s
                continue
            kind, v = lookup_case(fn, lb)
            if kind == "case":
                self.cases[v] = s
            elif kind == "default":
                self.default = s
            else:
                self.falls_out = s

    @property
    def enum(self):
        """type name of the enumeration that is switched over"""
        for v in self.cases:
            if isinstance(v, str) and "::" in v:
                return v.rsplit("::", 1)[0]
        return None


def switches(fn):
    if fn.cfg is None:
        return []
    return [Switch(fn, b) for b in fn.cfg.blocks.values() if b.tk == "SwitchStmt"]


class Events:
    """sequences of matched calls along the acyclic paths of functions. `match(fn, node)` returns a label or None"""

    def __init__(self, prog, match, maxdepth=4, limit=256, noexpand=None):
        self.prog = prog
        self.match = match
        self.maxdepth = maxdepth
        self.limit = limit
        self.noexpand = noexpand or (lambda f: False)
        self._has = {}
        self._seq = {}

    def has(self, fn, stack=()):
        r = self._has.get(fn.usr)
        if r is not None:
            return r
        if fn.usr in stack or len(stack) > 6:
            return False
        res = False
        for c in fn.walk():
            if c.k == "call" or c.k == "member" or c.k == "un" or c.k == "bin":
                if self.match(fn, c) is not None:
                    res = True
                    break
            if c.k == "call" and not self.noexpand(c):
                for t in self.prog.targets(c):
                    if t is not fn and self.has(t, stack + (fn.usr,)):
                        res = True
                        break
                if res:
                    break
        if not stack or res:
            self._has[fn.usr] = res
        return res

    def whole(self, fn, depth=0, stack=()):
        if fn.usr in self._seq:
            return self._seq[fn.usr]
        if fn.cfg is None or depth > self.maxdepth or fn.usr in stack:
            return {()}
        r = self.from_block(fn, fn.cfg.entry, set(), depth, stack + (fn.usr,))
        self._seq[fn.usr] = r
        return r

    def elem(self, fn, n, depth, stack):
        """set of sequences of one element"""
        lab = self.match(fn, n)
        if lab is not None:
            return {((lab, n),)}
        if n.k == "call" and not self.noexpand(n):
            out = None
            for t in self.prog.targets(n):
                if t.usr in stack or not self.has(t):
                    continue
                r = {tuple((l, n) for l, _ in s) for s in self.whole(t, depth + 1, stack)}
                out = r if out is None else out | r
            if out:
                return out
        return None

    def block_seq(self, fn, blk, depth, stack):
        cur = {()}
        for e in blk.elems:
            if isinstance(e, list):
                continue
            n = fn.nodes[e]
            if n is None:
                continue
            r = self.elem(fn, n, depth, stack)
            if r:
                cur = {a + b for a in cur for b in r}
                if len(cur) > self.limit:
                    cur = set(list(cur)[:self.limit])
        return cur

    def from_block(self, fn, start, stop, depth=0, stack=()):
        """set of event sequences from the start of block `start` to the exit or to a block in `stop`"""
        cfg = fn.cfg
        order = []
        seen = set()
        st = [(start, iter(cfg.blocks[start].succ))]
        seen.add(start)
        while st:
            b, it = st[-1]
            for s in it:
                if s >= 0 and s not in seen and s not in stop:
                    seen.add(s)
                    st.append((s, iter(cfg.blocks[s].succ)))
                    break
            else:
                order.append(b)
                st.pop()
        idx = {b: i for i, b in enumerate(order)}   # post order: successors first
        memo = {}
        for b in order:
            blk = cfg.blocks[b]
            tails = set()
            if not blk.noreturn:
                ss = [s for s in blk.succ if s >= 0]
                if not ss:
                    tails.add(())
                for s in ss:
                    if s in stop:
                        tails.add(())
                    elif idx[s] < idx[b]:
                        tails |= memo[s]
                if not tails:
                    # only back edges: a path that loops, ends here
                    tails = set()
            else:
                tails = {()}
            own = self.block_seq(fn, blk, depth, stack)
            res = {a + t for a in own for t in tails}
            if len(res) > self.limit:
                res = set(sorted(res, key=len, reverse=True)[:self.limit])
            memo[b] = res
        return memo[start]


def longest(seqs):
    return max(seqs, key=len) if seqs else ()


def origin(fn, n, depth=0):
    """the node that produces the value of n: casts, copies, single argument constructors and single-assignment variables are followed"""
    while n is not None and depth < 30:
        depth += 1
        if n.k == "cast":
            n = n.child(0)
        elif n.k == "init" and len(n.children) == 1:
            n = n.children[0]
        elif n.k == "call" and n.d.get("ck") == "ctor" and len(n.args) == 1:
            n = n.args[0]
        elif n.k == "call" and strip_targs(n.q) in ("std::move", "std::forward") and len(n.args) == 1:
            n = n.args[0]
        elif n.k == "un" and n.op in ("*", "&"):
            n = n.child(0)
        elif n.k == "call" and n.d.get("ck") == "op" and n.op in ("*", "->") and n.obj is not None and not n.args:
            n = n.obj
        elif n.k == "call" and n.name.startswith("operator ") and n.obj is not None and not n.args:
            n = n.obj
        elif n.k == "ref" and n.decl >= 0:
            c = ctx_of(fn)
            d = fn.decls[n.decl]
            if d.kind == "var" and c.is_stable(n.decl) and c.init_of(n.decl) is not None:
                n = c.init_of(n.decl)
            else:
                return n
        else:
            return n
    return n


def refs_to(fn, producer):
    """ref nodes of single-assignment variables whose origin is node `producer`, and the node itself"""
    out = [producer]
    for n in fn.walk():
        if n.k == "ref" and n.decl >= 0 and fn.decls[n.decl].kind == "var":
            if origin(fn, n) is producer:
                out.append(n)
    return out


def enum_values(prog, t):
    e = prog.enums.get(t)
    if e is None:
        raise AnalysisBroken("enumeration %s not found" % t)
    return [(n, int(v)) for n, v in e["c"]]


def record(prog, t):
    r = prog.records.get(t)
    if r is None:
        raise AnalysisBroken("record %s not found" % t)
    return r


def ends_noreturn(fn, b):
    """every path from the start of block b ends in a function that does not return (or a throw)"""
    seen = set()
    st = [b]
    cfg = fn.cfg
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        blk = cfg.blocks[x]
        if blk.noreturn:
            continue
        if x == cfg.exit:
            return False
        if any(fn.nodes[e] is not None and fn.nodes[e].k == "throw" for e in blk.elems if not isinstance(e, list)):
            continue
        ss = [s for s in blk.succ if s >= 0]
        if not ss:
            return False
        st.extend(ss)
        if len(seen) > 12:
            return False
    return True


def reject_facts(prog, eng, fn, depth=0, seen=None):
    """sets of facts (normalised) under which fn certainly does not continue normally: facts of branch edges that lead to a
    function that does not return, plus, for calls of helpers, the negations of the facts that hold after they return.
    yields (fact, node)"""
    from .guards import norm_fact, NEG, cmp_atom
    g = eng.guards(fn)
    g.compute()
    cfg = fn.cfg
    if cfg is None:
        return
    for b in cfg.blocks.values():
        if len(b.succ) == 2 and b.cond is not None and g._in.get(b.id) is not None:
            for idx, s in enumerate(b.succ):
                if s >= 0 and ends_noreturn(fn, s):
                    for f in g.edge_facts(b, idx, s):
                        yield norm_fact(f), fn.nodes[b.cond]
    for c in fn.calls():
        if not c.q:
            continue
        for f in eng.call_facts(g, c, None):
            f = norm_fact(f)
            if f[0] == "t":
                yield ("f", f[1]), c
            elif f[0] == "f":
                yield ("t", f[1]), c
            elif f[0] == "cmp":
                yield cmp_atom(NEG[f[1]], f[2], f[3]), c


def loop_bodies(fn):
    """[(header block, set of blocks of the natural loop, [(block with back edge, successor index)])]"""
    cfg = fn.cfg
    if cfg is None:
        return []
    order = cfg.rpo()
    pos = {b: i for i, b in enumerate(order)}
    dom = dominators(fn)
    loops = {}
    for b in order:
        for i, s in enumerate(cfg.blocks[b].succ):
            if s >= 0 and s in pos and s in dom[b]:
                loops.setdefault(s, []).append((b, i))
    out = []
    for h, backs in loops.items():
        body = {h}
        st = [b for b, _ in backs]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(cfg.blocks[x].pred)
        out.append((h, body, backs))
    return out


_dom = {}


def dominators(fn):
    """block -> set of dominating blocks (reachable blocks only)"""
    r = _dom.get(id(fn))
    if r is not None:
        return r
    cfg = fn.cfg
    order = cfg.rpo()
    allb = set(order)
    dom = {b: set(allb) for b in order}
    dom[cfg.entry] = {cfg.entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == cfg.entry:
                continue
            ps = [p for p in cfg.blocks[b].pred if p in allb]
            new = set.intersection(*[dom[p] for p in ps]) if ps else set()
            new = new | {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    _dom[id(fn)] = dom
    return dom


def position(fn, n):
    """(block id, index) of the CFG element that evaluates node n"""
    pos = fn.__dict__.get("_posmap")
    if pos is None:
        pos = {}
        if fn.cfg is not None:
            for b in fn.cfg.blocks.values():
                for i, e in enumerate(b.elems):
                    if not isinstance(e, list) and e not in pos:
                        pos[e] = (b.id, i)
        fn.__dict__["_posmap"] = pos
    cur = n
    while cur is not None and cur.id not in pos:
        cur = cur.parent
    return pos.get(cur.id) if cur is not None else None


def dominates(fn, a, b):
    """node a is evaluated before node b on every path to b"""
    pa, pb = position(fn, a), position(fn, b)
    if pa is None or pb is None:
        return False
    if pa[0] == pb[0]:
        return pa[1] < pb[1]
    d = dominators(fn)
    return pb[0] in d and pa[0] in d[pb[0]]


def every_iteration(fn, match, events=None):
    """for loops containing a match: True if every acyclic path through the body performs it. yields (loop, ok)"""
    for h, body, backs in loop_bodies(fn):
        hits = []
        for b in body:
            for e in fn.cfg.blocks[b].elems:
                if not isinstance(e, list) and fn.nodes[e] is not None and match(fn, fn.nodes[e]):
                    hits.append(b)
        if not hits:
            continue
        # path from header to a back edge that avoids all hits
        hs = set(hits)
        bad = False
        seen = set()
        st = [h] if h not in hs else []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            blk = fn.cfg.blocks[x]
            if blk.noreturn:
                continue
            for s in blk.succ:
                if s == h:
                    bad = True
                elif s in body and s not in hs:
                    st.append(s)
        yield (h, body, backs), not bad


def back_edge_facts(eng, fn, node):
    """facts (Facts objects) on the back edges of the innermost loop around node"""
    from .guards import Facts
    g = eng.guards(fn)
    p = position(fn, node)
    best = None
    for h, body, backs in loop_bodies(fn):
        if p is not None and p[0] in body and (best is None or len(body) < len(best[1])):
            best = (h, body, backs)
    if best is None:
        return []
    out = []
    g.compute()
    for b, i in best[2]:
        blk = fn.cfg.blocks[b]
        incs = [k for k, e in enumerate(blk.elems) if not isinstance(e, list) and fn.nodes[e] is not None
                and fn.nodes[e].op in ("++", "--", "+=") and fn.nodes[e].k in ("un", "call", "bin")]
        if not incs:
            out.append(Facts(g.at_block_edge(blk, i)))
            continue
        # before the loop variable is advanced
        st = g._in.get(b)
        if st is not None:
            for e in blk.elems[:incs[-1]]:
                st = g.transfer_elem(st, e)
        out.append(Facts(st))
    return out


def region_end_facts(eng, fn, cond):
    """for a condition established by a branch: the facts wherever the knowledge of it is lost again, or at the exit.
    cond(fact) selects the facts of the condition"""
    from .guards import Facts, norm_fact
    g = eng.guards(fn)
    g.compute()
    cfg = fn.cfg
    out = []
    for b in cfg.blocks.values():
        if g._in.get(b.id) is None or b.noreturn:
            continue
        for i, s in enumerate(b.succ):
            if s < 0:
                continue
            st = g.at_block_edge(b, i)
            if st is None or not any(cond(norm_fact(f)) for f in st):
                continue
            nxt = g._in.get(s)
            if s == cfg.exit or nxt is not None and not any(cond(norm_fact(f)) for f in nxt):
                out.append(Facts(st))
    return out


def loop_conditions(eng, fn, node):
    """the branches that must be taken to reach node from the start of the body of the innermost loop around it (of the function, if there
    is none): list of sets of facts, one set per branch"""
    g = eng.guards(fn)
    g.compute()
    p = position(fn, node)
    best = None
    for h, body, backs in loop_bodies(fn):
        if p is not None and p[0] in body and (best is None or len(body) < len(best[1])):
            best = (h, body, backs)
    at = g.at(node) or frozenset()
    if best is None:
        base = g._in.get(fn.cfg.entry) or frozenset()
    else:
        h, body, backs = best
        base = None
        blk = fn.cfg.blocks[h]
        for i, s in enumerate(blk.succ):
            if s in body:
                st = g.at_block_edge(blk, i)
                if st is not None:
                    base = st if base is None else base & st
        base = base or frozenset()
    out = []
    for b in fn.cfg.blocks.values():
        for i, s in enumerate(b.succ):
            if s >= 0:
                e = g.edge_facts(b, i, s)
                if e and e <= at and not e <= base and e not in out:
                    out.append(e)
    return out
