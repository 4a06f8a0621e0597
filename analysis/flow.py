"""Small queries over events and guards that several rules share."""
from .paths import loop_bodies, position, loop_conditions


def entry_state(M, fn, n):
    """events before the outermost loop around n (before n, if there is none)"""
    p = position(fn, n)
    if p is None:
        return frozenset()
    best = None
    for h, body, backs in loop_bodies(fn):
        if p[0] in body and (best is None or len(body) > len(best[1])):
            best = (h, body)
    if best is None:
        return M.at(fn, n) or frozenset()
    M.summary(fn)
    IN = M.solve(fn)
    acc = None
    for b, blk in fn.cfg.blocks.items():
        if b not in best[1] and best[0] in blk.succ and b in IN:
            st = M.flow(fn, IN[b], blk.elems, 0)
            acc = st if acc is None else acc & st
    return acc or frozenset()


def after_all(M, fn, n, pred):
    """every path from n to the exit or to a second evaluation of n passes an element with an event that satisfies pred"""
    p = position(fn, n)
    if p is None:
        return False
    cfg = fn.cfg

    def hit(elems):
        for e in elems:
            if not isinstance(e, list) and fn.nodes[e] is not None and any(pred(x) for x in M.elem_events(fn, fn.nodes[e], 0)):
                return True
        return False
    b0 = cfg.blocks[p[0]]
    if hit(b0.elems[p[1]:]):
        return True
    seen, st = set(), [s for s in b0.succ if s >= 0]
    while st:
        b = st.pop()
        if b == cfg.exit or b == p[0]:
            return False
        if b in seen or cfg.blocks[b].noreturn:
            continue
        seen.add(b)
        if hit(cfg.blocks[b].elems):
            continue
        st += [s for s in cfg.blocks[b].succ if s >= 0]
    return True


def conds(eng, fn, n, ok):
    """conditions of the enclosing loop iteration (or function) on n that do not satisfy ok"""
    return [sorted(map(str, e))[:2] for e in loop_conditions(eng, fn, n) if not any(ok(x) for x in e)
            and not all(x[0] in ("t", "f") and x[1] in ("0", "1", "true", "false") for x in e)]


def leaf(fn, blk):
    """(condition, negated) decided at the end of a block with two successors"""
    if len(blk.succ) != 2 or blk.cond is None:
        return None, False
    c = fn.nodes[blk.cond]
    while c is not None and c.k == "bin" and c.op in ("&&", "||") and c.id not in blk.elems:
        c = c.child(1)
    neg = False
    while c is not None:
        if c.k == "un" and c.op == "!":
            neg = not neg
            c = c.child(0)
        elif c.k == "cast" or (c.k == "bin" and c.op in ("&&", "||")):
            c = c.child(1) if c.k == "bin" else c.child(0)
        else:
            break
    return c, neg


def only_if(fn, n, pred):
    """every path from the entry to n takes an edge whose condition satisfies pred(condition node, truth)"""
    p = position(fn, n)
    if p is None:
        return True
    cfg = fn.cfg
    seen, st = set(), [cfg.entry]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == p[0]:
            return False
        blk = cfg.blocks[b]
        c, neg = leaf(fn, blk)
        for i, s in enumerate(blk.succ):
            if s < 0 or (c is not None and pred(c, (i == 0) != neg)):
                continue
            st.append(s)
    return True
