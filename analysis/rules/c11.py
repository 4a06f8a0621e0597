"""C11: abstract interpretation of the operations of the hash table over every valid cluster of up to three live entries and one hole, in an index of eight
slots in which the probe sequence wraps around. Rules: insert: insertion keeps every entry reachable, stores exactly one new entry and counts it, or overwrites
the value of the equal key and changes nothing else. lookup: a key is found exactly if it is present. remove: removal (with backward shift, compaction and
rehashing) keeps every other entry reachable and in insertion order, and counts. clear: nothing remains. rebuild: compaction and rehashing yield a valid index.
alloc-first: growth and initialisation allocate everything before they modify the table, and install entries, index and mask that belong together.
capacity: slot and entry capacities leave a free slot, fit the index type and make room for the element that is inserted. order: an insertion makes room
before it chooses the width of the index. iterate: iteration yields each live entry once."""
import itertools
import re
from .. import util
from ..absint import Budget, Interp, V, State, integer, obj, nonnull
from ..facts import AnalysisBroken
from ..flow import only_if
from ..scenario import Scenario, yes
from ..util import chk

HT = "tiro::vm::HashTable"
MASK = 7
EMPTY = {"0": 255, "1": 65535, "2": 2**32 - 1, "3": 2**64 - 1}
WIDTH = {"0": "unsigned char", "1": "unsigned short", "2": "unsigned int", "3": "unsigned long"}
SZ = "unsigned long"


def num(i, t=SZ):
    return integer(i, i, t)


def const(v):
    return v.lo if v is not None and v.kind == "i" and v.lo == v.hi else None


def insts(prog, name):
    fs = sorted((f for f in prog.fns.values() if f.cls == HT and f.name == name and f.cfg is not None), key=lambda f: f.usr)
    if not fs:
        raise AnalysisBroken("%s::%s not found" % (HT, name))
    return fs


def width(f):
    m = re.search(r"SizeClass(\d)", f.usr)
    return m.group(1) if m else "0"


class Table(Scenario):
    """cells: {slot: entry index}; entries: list of labels ("E0", ..., None for a hole); ideal: {label: slot}; key: label of the key (or "K" for a new key)"""

    def __init__(self, prog, w, key=None):
        super().__init__(prog, peel=40)
        self.empty, self.ity = EMPTY[w], WIDTH[w]
        self.key = key
        self.watch = lambda n, q: False
        self.follow = lambda t: t.relfile.endswith(("objects/hash_table.cpp", "objects/hash_table.hpp")) or t.flag("lam")
        self.pay = V("o", ty="payload", path="PAY", env="nonnull")
        self.endless = False
        self.fixed = {
            "static_payload": lambda n, o, a, s: self.pay, "index_values": lambda n, o, a, s: V("o", ty="IDX", path="IDX"), "get_entries": lambda n, o, a, s: nonnull("ENT"),
            "get_index": lambda n, o, a, s: nonnull("IDXBUF"), "make_hash": self.make_hash, "hash": self.hash, "key": self.keyof, "key_equal": self.equal,
            "is_deleted": lambda n, o, a, s: yes(not self.label(o, s).startswith(("E", "NEW"))),
            HT + "::size": lambda n, o, a, s: s.mem[(self.pay.id, "size")], HT + "::empty": lambda n, o, a, s: yes(const(s.mem[(self.pay.id, "size")]) == 0),
            HT + "::occupied_entries": lambda n, o, a, s: s.mem[("ENT", "n")],
            "size": self.size, "get": self.get, "set": self.set, "append": self.append, "remove_last": self.remove_last, "clear": self.clear, "values": self.values,
            "operator[]": self.at, "std::fill": self.fill, "std::fill_n": self.fill, "layout": lambda n, o, a, s: obj("LAYOUT"),
            "full": lambda n, o, a, s: yes(False), "value": lambda n, o, a, s: o if o is not None and self.path(o, s) in ("ENT", "IDXBUF") else None,
            "has_value": self.truth, "operator bool": self.truth,
        }

    def run(self, fn, args, st):
        orig = Interp.__init__
        me = self

        def ini(it, *a, **k):
            orig(it, *a, **k)
            it.lochook = me.hook
            it.onhavoc = me.havoc
        Interp.__init__ = ini
        try:
            return super().run(fn, args, util.this(HT), st)
        except Budget:
            if not self.endless:
                raise
            return []
        finally:
            Interp.__init__ = orig

    def havoc(self, it, fn, b, st):
        self.endless = True

    def hook(self, it, fn, n, fr, this, st):
        if n.k == "call" and n.name == "operator[]" and n.args:
            base = it.ev(fn, n.obj, fr, this, st.copy(), 8) if n.obj is not None else []
            r = it.ev(fn, n.args[0], fr, this, st.copy(), 8)
            if len(base) == 1 and self.path(base[0][0], base[0][1]) == "IDX" and len(r) == 1 and const(r[0][0]) is not None:
                return ("m", "IDX", const(r[0][0]))
        return None

    # ---- state ----
    def start(self, cells, entries, ideal, size=None):
        st = State()
        self.ideal = ideal
        for i in range(MASK + 1):
            st.mem[("IDX", i)] = num(cells.get(i, self.empty), self.ity)
        for i, e in enumerate(entries):
            st.mem[("ENT", i)] = obj(e or "HOLE")
        st.mem[("ENT", "n")] = num(len(entries))
        st.mem[(self.pay.id, "size")] = num(len([e for e in entries if e]) if size is None else size)
        st.mem[(self.pay.id, "mask")] = num(MASK)
        return st

    def table(self, st):
        cells = {}
        for i in range(MASK + 1):
            c = const(st.mem.get(("IDX", i)))
            if c != self.empty:
                cells[i] = c
        n = const(st.mem.get(("ENT", "n")))
        entries = [self.label(st.mem.get(("ENT", i)), st) for i in range(n or 0)]
        return cells, entries, const(st.mem.get((self.pay.id, "size"))), const(st.mem.get((self.pay.id, "mask")))

    def label(self, v, s):
        p = self.path(v, s) if v is not None else "?"
        if re.fullmatch(r"E\d+|NEW(\(.*\))?|HOLE", p):
            return p
        m = re.fullmatch(r"tiro::vm::HashTableEntry[({](.*)[)}]", p)
        if m:
            parts = [x.strip() for x in m.group(1).split(",")]
            if len(parts) == 3:
                k = parts[1]
                return "NEW" if k == "KEY" else k[4:-1] + "'" if k.startswith("key(") else p
        return "HOLE" if "sentinel" in p or "make_deleted" in p or "deleted" in p else p

    # ---- model of the storage ----
    def slot_of(self, label):
        return self.ideal["K"] if label in ("NEW", "K") else self.ideal.get(label.rstrip("'"))

    def hashv(self, label, s):
        h = V("o", ty="tiro::vm::HashTableEntry::Hash", path="H(%s)" % label)
        ideal = self.slot_of(label)
        s.mem[(h.id, "value")] = num((ideal if ideal is not None else 99) + 64)
        return h

    def make_hash(self, n, o, a, s):
        return self.hashv("K", s)

    def hash(self, n, o, a, s):
        l = self.label(o, s) if o is not None else ""
        return self.hashv(l, s) if l.startswith(("E", "NEW")) else None

    def keyof(self, n, o, a, s):
        l = self.label(o, s) if o is not None else ""
        return obj("KEY" if l == "NEW" else "key(%s)" % l.rstrip("'"))

    def equal(self, n, o, a, s):
        ps = sorted(self.path(x, s) for x in a)
        if ps[0] == ps[1]:
            return yes(True)
        return yes(self.key is not None and ps == ["KEY", "key(%s)" % self.key])

    def truth(self, n, o, a, s):
        p = self.path(o, s) if o is not None else ""
        return yes(True) if p in ("ENT", "IDXBUF", "FOUND") else yes(False) if p in ("nullptr", "std::nullopt") else None

    def ent(self, o, s):
        return o is not None and self.path(o, s) in ("ENT", "ENTV")

    def size(self, n, o, a, s):
        if self.ent(o, s):
            return s.mem[("ENT", "n")]
        if o is not None and self.path(o, s) == "IDX":
            return num(MASK + 1)
        return None

    def values(self, n, o, a, s):
        return V("o", ty="ENTV", path="ENTV") if self.ent(o, s) else None

    def get(self, n, o, a, s):
        if not self.ent(o, s) or not a:
            return None
        i = const(a[-1])
        return s.mem.get(("ENT", i)) if i is not None and i < const(s.mem[("ENT", "n")]) else obj("OUT-OF-BOUNDS")

    def at(self, n, o, a, s):
        p = self.path(o, s) if o is not None else ""
        i = const(a[-1]) if a else None
        if p == "IDX":
            return s.mem.get(("IDX", i)) or obj("OUT-OF-BOUNDS")
        if p == "ENTV":
            return self.get(n, o, a, s)
        return None

    def set(self, n, o, a, s):
        if not self.ent(o, s) or len(a) < 2:
            return None
        i = const(a[0])
        if i is None or i >= const(s.mem[("ENT", "n")]):
            s.mem[("ENT", "bad")] = num(1)
        else:
            s.mem[("ENT", i)] = obj(self.label(a[1], s))
        return V("v")

    def append(self, n, o, a, s):
        if not self.ent(o, s):
            return None
        k = const(s.mem[("ENT", "n")])
        s.mem[("ENT", k)] = obj(self.label(a[0], s))
        s.mem[("ENT", "n")] = num(k + 1)
        return V("v")

    def remove_last(self, n, o, a, s):
        if not self.ent(o, s):
            return None
        k = const(a[0]) if a else 1
        left = const(s.mem[("ENT", "n")]) - (1 if k is None else k)
        if left < 0:
            s.mem[("ENT", "bad")] = num(1)
            left = 0
        s.mem[("ENT", "n")] = num(left)
        return V("v")

    def clear(self, n, o, a, s):
        if not self.ent(o, s):
            return None
        s.mem[("ENT", "n")] = num(0)
        return V("v")

    def fill(self, n, o, a, s):
        if any("IDX" in self.path(x, s) for x in a) and const(a[-1]) is not None:
            for i in range(MASK + 1):
                s.mem[("IDX", i)] = num(const(a[-1]), self.ity)
            return V("v")
        return None


# ---- the oracle ---------------------------------------------------------------------------------------------------------------
def reachable(cells, entries, ideal, j):
    """robin hood probing finds entry j"""
    c, d = ideal(entries[j]), 0
    while d <= MASK:
        if c not in cells or cells[c] >= len(entries) or not alive(entries[cells[c]]):
            return False
        if cells[c] == j:
            return True
        if d > (c - ideal(entries[cells[c]])) & MASK:
            return False
        c, d = (c + 1) & MASK, d + 1
    return False


def alive(e):
    return e is not None and e.startswith(("E", "NEW"))


def problem(cells, entries, size, mask, ideal):
    live = [j for j, e in enumerate(entries) if alive(e)]
    if size != len(live):
        return "the table counts %s elements but has %d" % (size, len(live))
    if mask != MASK:
        return "the mask changed"
    if sorted(cells.values()) != live:
        return "the index refers to the entries %s but %s are present" % (sorted(cells.values()), live)
    for j in live:
        if ideal(entries[j]) is None or not reachable(cells, entries, ideal, j):
            return "the key of entry %d is not reachable any more" % j
    return None


def tables(n_live=3, homes=(6, 7, 0)):
    """every valid table with up to n_live live entries and at most one hole: (cells, entries, ideal)"""
    for n in range(n_live + 1):
        labels = ["E%d" % i for i in range(n)]
        for ideals in itertools.product(homes, repeat=n):
            ideal = dict(zip(labels, ideals))
            slots = [6, 7, 0, 1, 2][:n + 2]
            for place in itertools.permutations(slots, n):
                cells = {s: i for i, s in enumerate(place)}
                if problem(cells, labels, n, MASK, lambda l: ideal[l]) is None:
                    yield cells, labels, ideal
                    for h in range(n + 1) if n else ():
                        if h == n:
                            continue     # a hole at the end is removed at once
                        ent = labels[:h] + [None] + labels[h:]
                        yield {s: (i if i < h else i + 1) for s, i in cells.items()}, ent, ideal


def clusters(n, homes=(5, 6, 7, 0)):
    """clusters of n entries without gaps or holes; the entries are numbered in the order of their slots"""
    labels = ["E%d" % i for i in range(n)]
    for first in (5, 6):
        for ideals in itertools.product(homes, repeat=n):
            ideal = dict(zip(labels, ideals))
            cells = {(first + i) & MASK: i for i in range(n)}
            if problem(cells, labels, n, MASK, lambda l: ideal[l]) is None:
                yield cells, labels, ideal


def check_result(rep, rule, f, t, res, key, want):
    """want(cells, entries, size, value, st) -> message or None"""
    if not res or t.endless:
        rep.bad(rule, f.loc, key, "the probe loop does not end")
        return
    for v, ev, s in res:
        cells, entries, size, mask = t.table(s)
        msg = "an entry outside of the storage is written" if ("ENT", "bad") in s.mem else problem(cells, entries, size, mask, t.slot_of) or want(cells, entries, size, v, s)
        chk(rep, rule, f, msg is None, msg, key)


def shape(cells, entries, ideal):
    return "%s/%s" % (" ".join("%d:%s" % (c, "E%d" % j) for c, j in sorted(cells.items())), " ".join((e or "-") + ("@%d" % ideal[e] if e else "") for e in entries))


def operations(prog, rep):
    f_set, f_find, f_rem, f_clear = (insts(prog, n)[0] for n in ("set_impl", "find_impl", "remove_impl", "clear_impl"))
    for cells, entries, ideal in tables():
        live = [e for e in entries if e]
        sh = shape(cells, entries, ideal)
        for key in live + ["K"]:
            for home in ((6, 7, 0, 1) if key == "K" else (ideal[key],)):
                idl = dict(ideal, K=home)
                match = key if key != "K" else None
                # insertion
                t = Table(prog, width(f_set), match)
                st = t.start(cells, entries, idl)
                res = t.run(f_set, [obj("DATA"), obj("KEY"), obj("VALUE")], st)

                def w_set(c, e, n, v, s):
                    r = t.path(v, s)
                    if match:
                        want = [x + "'" if x == match else x or "HOLE" for x in entries]
                        return None if r == "false" and c == cells and e == want else "overwriting the value of %s changes the table to %s %s (%s)" % (match, c, e, r)
                    return None if r == "true" and e == [x or "HOLE" for x in entries] + ["NEW"] else "inserting a new key leaves %s (%s)" % (e, r)
                check_result(rep, "insert", f_set, t, res, "%s + %s@%d" % (sh, key, home), w_set)
                # lookup
                t = Table(prog, width(f_find), match)
                st = t.start(cells, entries, idl)
                res = t.run(f_find, [obj("DATA"), obj("KEY")], st)

                def w_find(c, e, n, v, s):
                    if c != cells:
                        return "a lookup changes the table"
                    r = t.path(v, s)
                    nums = [int(x) for x in re.findall(r"(?<![\w#])\d+(?!\w)", r)]
                    if match:
                        j = entries.index(match)
                        slot = [k for k, x in cells.items() if x == j][0]
                        return None if nums[-2:] == [slot, j] else "the key in slot %d (entry %d) is found as %s" % (slot, j, r)
                    return None if not nums else "an absent key is found as %s" % r
                check_result(rep, "lookup", f_find, t, res, "%s ? %s@%d" % (sh, key, home), w_find)
                # removal
                t = Table(prog, width(f_rem), match)
                st = t.start(cells, entries, idl)
                pos = None
                if match:
                    j = entries.index(match)
                    pos = [k for k, x in cells.items() if x == j][0], j
                t.fixed["find_impl"] = lambda n, o, a, s, pos=pos: found(t, pos, s)
                res = t.run(f_rem, [obj("DATA"), obj("KEY")], st)

                def w_rem(c, e, n, v, s):
                    r = t.path(v, s)
                    left = [x for x in e if alive(x)]
                    if left != [x for x in live if x != match]:
                        return "removing %s leaves %s" % (key, left)
                    return None if r == ("true" if match else "false") else "removing %s returns %s" % (key, r)
                check_result(rep, "remove", f_rem, t, res, "%s - %s" % (sh, key), w_rem)
    # insertion into larger clusters
    for n in (4, 5):
        for cells, entries, ideal in clusters(n):
            for home in (5, 6, 7, 0):
                t = Table(prog, width(f_set))
                res = t.run(f_set, [obj("DATA"), obj("KEY"), obj("VALUE")], t.start(cells, entries, dict(ideal, K=home)))
                check_result(rep, "insert", f_set, t, res, "%s + K@%d" % (shape(cells, entries, ideal), home),
                             lambda c, e, n, v, s: None if e == entries + ["NEW"] and t.path(v, s) == "true" else "inserting a new key leaves %s" % e)
    for cells, entries, ideal in tables():
        t = Table(prog, width(f_clear))
        res = t.run(f_clear, [obj("DATA")], t.start(cells, entries, dict(ideal, K=0)))
        check_result(rep, "clear", f_clear, t, res, "%s clear" % sh, lambda c, e, n, v, s: None if not c and not e and n == 0 else "entries remain")
    for r, n in (("insert", 200), ("lookup", 200), ("remove", 200), ("clear", 20)):
        rep.require(r, n, "table shapes")


def found(t, pos, s):
    if pos is None:
        return nonexist(t)
    o = V("o", ty="std::optional<std::pair<unsigned long, unsigned long>>", path="FOUND", env="nonnull")
    s.mem[(o.id, "first")], s.mem[(o.id, "second")] = num(pos[0]), num(pos[1])
    return o


def nonexist(t):
    return V("s", path="nullptr", ty="std::nullopt_t")


def rebuild(prog, rep):
    f_c, f_r = insts(prog, "compact")[0], insts(prog, "rehash_index")[0]
    for cells, entries, ideal in tables():
        sh = shape(cells, entries, ideal)
        t = Table(prog, width(f_c))
        res = t.run(f_c, [obj("DATA")], t.start(cells, entries, dict(ideal, K=0)))
        live = [e for e in entries if e]
        check_result(rep, "rebuild", f_c, t, res, "%s compact" % sh, lambda c, e, n, v, s: None if e == live else "compaction turns %s into %s" % (entries, e))
        if None not in entries:
            t = Table(prog, width(f_r))
            res = t.run(f_r, [obj("DATA")], t.start({}, entries, dict(ideal, K=0)))
            check_result(rep, "rebuild", f_r, t, res, "%s rehash" % sh, lambda c, e, n, v, s: None if e == live else "rehashing changes the entries")
    for n in (4, 5):
        for ideals in itertools.product((5, 6, 7), repeat=n):
            entries = ["E%d" % i for i in range(n)]
            ideal = dict(zip(entries, ideals))
            t = Table(prog, width(f_r))
            res = t.run(f_r, [obj("DATA")], t.start({}, entries, dict(ideal, K=0)))
            check_result(rep, "rebuild", f_r, t, res, "%s rehash" % shape({}, entries, ideal), lambda c, e, n, v, s: None if e == entries else "rehashing changes the entries")
    # two holes
    for pat in itertools.product((0, 1), repeat=4):
        if sum(pat) in (0, 4):
            continue
        ent = ["E%d" % sum(pat[:i]) if x else None for i, x in enumerate(pat)]
        live = [e for e in ent if e]
        ideal = {e: 6 for e in live}
        cells = dict(zip([6, 7, 0, 1], [ent.index(e) for e in live]))
        t = Table(prog, width(f_c))
        res = t.run(f_c, [obj("DATA")], t.start(cells, ent, dict(ideal, K=0)))
        check_result(rep, "rebuild", f_c, t, res, "%s compact" % ent, lambda c, e, n, v, s: None if e == live else "compaction turns %s into %s" % (ent, e))
    rep.require("rebuild", 60, "table shapes")


MUT = ("set_entries", "set_index")


def alloc_first(prog, rep):
    for name, occupied in (("init_first", 0), ("grow_to_capacity", 3), ("grow_to_capacity", 4)):
        f = insts(prog, name)[0]
        pay = V("o", ty="payload", path="PAY", env="nonnull")
        st = State()
        st.mem[(pay.id, "size")], st.mem[(pay.id, "mask")] = obj("SIZE0"), obj("MASK0")
        args = []
        for p in f.params:
            args.append(num(48) if "entry" in p.name else num(64) if "index" in p.name else obj(p.name))
        ints = [i for i, p in enumerate(f.params) if p.type.endswith("unsigned long") or "size_t" in p.type]
        if name == "grow_to_capacity" and len(ints) == 2:
            args[ints[0]], args[ints[1]] = num(48), num(64)

        def payload(n, o, a, s):
            return pay

        def rehash(n, o, a, s):
            s.mem[("mask at rehash",)] = s.mem.get((pay.id, "mask"))
            return V("v")
        sc = Scenario(prog, {"static_payload": payload, "rehash_index": rehash, HT + "::size": num(3), 
                             HT + "::occupied_entries": lambda n, o, a, s: num(3 if any(e[0] == "set_entries" for e in s.mem.get(("ev",), ())) else occupied)},
                      watch=lambda n, q: n.name in MUT + ("recreate_index", "rehash_index", "append", "append_all", "index_size_class") or n.name == "make" and ("Storage" in q or "Buffer" in q),
                      follow=lambda t: t.flag("lam") or t.name in ("dispatch_size_class", "index_size_class", "recreate_index") or t.cls != HT and t.name.endswith("_capacity"), into=lambda t: t.name == "recreate_index")
        res = sc.run(f, args, util.this(HT), st)
        if not res:
            rep.bad("alloc-first", f.loc, f.q, "never returns")
        for v, ev, s in res:
            names = [e[0] for e in ev]
            allocs = [i for i, e in enumerate(names) if e == "make"]
            muts = [i for i, e in enumerate(names) if e in MUT]
            chk(rep, "alloc-first", f, len(allocs) == 2, "%d allocations instead of entries and index" % len(allocs), "%s: allocates" % name)
            chk(rep, "alloc-first", f, allocs and muts and max(allocs) < min(muts), "the table is modified before the last allocation, which may fail", "%s: order" % name)
            chk(rep, "alloc-first", f, sorted(e for e in names if e in MUT) == ["set_entries", "set_index"], "entries and index are not both replaced: %s" % names, "%s: both" % name)
            mk_e = [e for e in ev if e[0] == "make" and num_in(e[2], 48 if name != "init_first" else 6)]
            mk_i = [e for e in ev if e[0] == "make" and num_in(e[2], 64 if name != "init_first" else 8)]
            cap = 64 if name != "init_first" else 8
            if name == "init_first":
                ic = [c for e in ev if e[0] == "make" for c in nums(e[2])]
                big = [c for c in ic if c not in (255, 65535)]
                cap = max(big) if big else None
                chk(rep, "alloc-first", f, len(big) == 2 and min(big) < max(big) and max(big) & (max(big) - 1) == 0, "entries %s and slots are not sized to leave a free slot" % big, "init_first: sizes")
            else:
                chk(rep, "alloc-first", f, len(mk_e) == 1 and len(mk_i) == 1, "entries and index do not have the requested capacities", "grow: sizes")
                used = [nums(e[2]) for e in ev if e[0] == "index_size_class"]
                chk(rep, "alloc-first", f, used == [[48]], "the width of the index is chosen for %s entries instead of the new capacity" % used, "grow: width")
                at = const(s.mem.get(("mask at rehash",)))
                chk(rep, "alloc-first", f, at == 63, "the index is filled with the mask %s" % at, "grow: mask before rehash")
                chk(rep, "alloc-first", f, occupied == 3 or "append_all" not in names, "all entries are copied although some are deleted", "grow: holes")
            mask = const(s.mem.get((pay.id, "mask")))
            chk(rep, "alloc-first", f, cap is not None and mask == cap - 1, "the mask is %s for an index of %s slots" % (mask, cap), "%s: mask" % name)
            if name == "init_first":
                chk(rep, "alloc-first", f, const(s.mem.get((pay.id, "size"))) == 0, "a new table is not empty", "init_first: size")
            else:
                chk(rep, "alloc-first", f, names and names[-1] == "rehash_index" and muts and names.index("rehash_index") > max(muts), "the new index is not filled after it was installed", "grow: rehash")
                ne = [i for i, e in enumerate(names) if e in ("append", "append_all")]
                chk(rep, "alloc-first", f, all(i < names.index("rehash_index") for i in ne), "entries are copied after the index was built", "grow: copy order")
    # deleted entries are not copied
    for f in insts(prog, "grow_to_capacity")[:1]:
        aps = [n for n in f.calls() if n.name == "append"]
        all_ = [n for n in f.calls() if n.name == "append_all"]
        chk(rep, "alloc-first", f, bool(aps or all_), "the entries are not copied", "grow: copies")
        for n in aps:
            ok = guarded(f, n, "is_deleted", False)
            chk(rep, "alloc-first", n, ok, "deleted entries are copied", "grow: skips holes")
    rep.require("alloc-first", 10, "steps")


def polarity(f, c, name):
    """True if the condition is a call of `name`, False if it is its negation, None otherwise; looks through local variables"""
    neg = False
    for _ in range(12):
        while c is not None and c.k in ("cast", "paren") or c is not None and c.k == "un" and c.op == "!":
            neg ^= c.k == "un"
            c = c.child(0)
        if c is None:
            return None
        if c.k == "call":
            return (not neg) if c.name == name else None
        if c.k != "ref" or c.decl < 0:
            return None
        inits = [f.nodes[i] for n in f.walk() if n.k == "decl" for v, i in n.d.get("vars", ()) if i >= 0 and v == c.decl]
        if len(inits) != 1:
            return None
        c = inits[0]
    return None


def guarded(f, n, name, truth):
    """n is evaluated only where a call of `name` gave `truth`"""
    return only_if(f, n, lambda c, t: polarity(f, c, name) is not None and (polarity(f, c, name) == t) == truth)


def nums(args):
    return [int(x) for x in args if re.fullmatch(r"\d+", x or "")]


def num_in(args, v):
    return v in nums(args)


def value_of(prog, f, args, this=None):
    sc = Scenario(prog, {"is_pow2": lambda n, o, a, s: yes(True), "max_pow2": num(1 << 63),
                         "count_leading_zeroes": lambda n, o, a, s: num(64 - const(a[0]).bit_length(), "int") if a and const(a[0]) is not None else None}, follow=lambda t: t.relfile == f.relfile or "math" in t.relfile)
    out = set()
    for v, ev, s in sc.run(f, args, this):
        p = sc.path(v, s)
        m = re.search(r"(?<![\w#])(\d+)(?!\w)", p)
        out.add(int(m.group(1)) if m else None if "optional" in p or "null" in p or p in ("", "{}") else p)
    return out


def capacity(prog, rep):
    tab = util.one(prog, "tiro::vm::table_capacity_for_index_capacity")
    idx = util.one(prog, "tiro::vm::index_capacity_for_entries_capacity")
    grw = util.one(prog, "tiro::vm::grow_index_capacity")
    tcap = {}
    for k in range(3, 63):
        r = value_of(prog, tab, [num(1 << k)])
        c = r.pop() if len(r) == 1 else None
        tcap[1 << k] = c
        chk(rep, "capacity", tab, isinstance(c, int) and 0 < c < 1 << k, "an index of 2^%d slots holds %s entries: no slot stays free" % (k, c), "table capacity 2^%d" % k)
        r = value_of(prog, grw, [num(1 << k)])
        chk(rep, "capacity", grw, r == {2 << k} or (k == 62 and r <= {None, 2 << k}), "an index of 2^%d slots grows to %s" % (k, r), "growth 2^%d" % k)
    cls = [f for f in insts(prog, "index_size_class") if len(f.params) == 1 and f.params[0].type.endswith("long")]
    vals = util.values(prog, HT + "::SizeClass")
    if not cls or not vals:
        raise AnalysisBroken("size classes not found")
    limit = {}
    for n, v in vals.items():
        m = re.search(r"(\d+)$", n)
        limit[v] = (1 << int(m.group(1))) - 1 if m else 0
    for b in (8, 16, 32):
        for n in ((1 << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1):
            r = value_of(prog, cls[0], [num(n)])
            c = list(r)[0] if len(r) == 1 else None
            chk(rep, "capacity", cls[0], c in limit and n - 1 < limit[c], "an index for %d entries uses the size class %s, whose empty marker is a valid entry" % (n, c), "size class %d" % n)
    via = [f for f in insts(prog, "index_size_class") if f not in cls]
    for f in via:
        for n, want in ((200, 1 << 8), (300, 1 << 16), (70000, 1 << 32)):
            sc = Scenario(prog, {HT + "::entry_capacity": num(n), HT + "::size": num(5), HT + "::occupied_entries": num(5), HT + "::index_capacity": num(1 << 40)}, follow=lambda t: t in cls)
            for v, ev, s in sc.run(f, [obj("DATA")], util.this(HT)):
                c = const(v)
                chk(rep, "capacity", f, c in limit and limit[c] == want - 1, "a table with room for %d entries uses the size class %s" % (n, c), "size class of a table for %d" % n)
    # the dispatch selects the traits of the class
    for f in [f for f in prog.fns.values() if f.name == "dispatch_size_class" and f.cfg is not None][:1]:
        from ..paths import switches
        k = 0
        for n in f.walk():
            if n.k == "case":
                lab = [x.name for x in n.walk() if x.k == "enum"]
                ty = [x.q + (x.type or "") for x in n.walk() if x.k == "call" and "SizeClassTraits" in (x.q + (x.type or ""))]
                m = re.search(r"SizeClassTraits<(?:tiro::vm::HashTable::SizeClass::)?(\w+)", ty[0]) if ty else None
                if lab and m:
                    k += 1
                    got = m.group(1)
                    chk(rep, "capacity", n, got in (lab[0], str(vals.get(lab[0]))), "the size class %s is handled with the traits of %s" % (lab[0], got), "dispatch %s" % lab[0])
    # room for the new element
    ens = util.one(prog, HT + "::ensure_free_capacity")
    caps = [tcap[1 << k] for k in range(3, 30) if isinstance(tcap[1 << k], int)]
    for cap in [None] + caps:
        for full, size in (((None, 0),) if cap is None else ((False, cap - 1), (True, cap), (True, cap // 2), (True, cap // 2 + 1), (True, cap - 1))):
            sc = Scenario(prog, {"full": yes(bool(full)), "has_value": lambda n, o, a, s: yes(cap is not None), HT + "::size": num(size), HT + "::entry_capacity": num(cap or 0), HT + "::occupied_entries": num(cap or 0)},
                          watch=lambda n, q: q.startswith(HT) and n.name in ("grow", "compact", "init_first"), follow=lambda t: t.flag("lam") or t.name in ("dispatch_size_class",))
            res = sc.run(ens, [obj("DATA"), obj("CTX")], util.this(HT))
            for v, ev, s in res:
                names = [e[0] for e in ev]
                if cap is None:
                    ok = names == ["init_first"]
                elif not full:
                    ok = names == []
                elif size == cap:
                    ok = names == ["grow"]
                else:
                    ok = names in (["grow"], ["compact"])
                chk(rep, "capacity", ens, ok, "a table with capacity %s and %s elements (%s) is prepared for an insertion by %s" % (cap, size, "full" if full else "not full", names or "nothing"),
                    "room: %s/%s/%s" % (size, cap, full))
            chk(rep, "capacity", ens, bool(res), "never returns", "room: returns")
    rep.require("capacity", 150, "capacities")
    # the requested initial capacity fits
    for x in [1, 5, 6, 7, 11, 12, 13, 23, 24, 25, 191, 192, 193, 255, 256, 383, 384, 385, 49152, 49153, 3 << 30, (3 << 30) + 1, (3 << 60) - 1, 3 << 60]:
        r = value_of(prog, idx, [num(x)])
        c = list(r)[0] if len(r) == 1 else "?"
        chk(rep, "capacity", idx, c is None or isinstance(c, int) and c & (c - 1) == 0 and isinstance(tcap.get(c), int) and tcap[c] >= x,
            "a table for %d entries gets %s slots" % (x, c), "initial capacity %d" % x)


def order(prog, rep):
    f = util.one(prog, HT + "::set")
    sc = Scenario(prog, watch=("ensure_free_capacity", "index_size_class", "set_impl"), follow=lambda t: t.flag("lam") or t.name == "dispatch_size_class")
    hit = 0
    for v, ev, s in sc.run(f, [obj("CTX"), obj("KEY"), obj("VALUE")], util.this(HT)):
        names = [e[0] for e in ev]
        if "set_impl" not in names:
            continue
        hit += 1
        chk(rep, "order", f, names.count("ensure_free_capacity") == 1 and names.index("ensure_free_capacity") < names.index("set_impl"), "the entry is inserted before room was made", "room first")
        chk(rep, "order", f, "index_size_class" not in names or names.index("ensure_free_capacity") < names.index("index_size_class"),
            "the width of the index is chosen before the table may grow", "width after growth")
        e = [e for e in ev if e[0] == "set_impl"]
        chk(rep, "order", f, len(e) == 1 and any("KEY" in a for a in e[0][2]) and any("VALUE" in a for a in e[0][2]), "key and value are not passed on", "arguments")
    chk(rep, "order", f, hit > 0, "an insertion never reaches the table", "inserts")


def iterate(prog, rep):
    f = util.one(prog, HT + "::iterator_next")
    for n in range(0, 5):
        for pat in itertools.product((0, 1), repeat=n):
            ent = ["E%d" % i if x else None for i, x in enumerate(pat)]
            for start in range(n + 1):
                t = Table(prog, "0")
                st = t.start({}, ent, {"E%d" % i: 6 for i in range(n)})
                box = V("o", ty="box", path="POS")
                fr = (1, f.params[0].id)
                st.env[fr] = num(start)
                t.fixed["std::make_pair"] = lambda nn, o, a, s: obj("PAIR(%s)" % ",".join(t.path(x, s) for x in a))
                res = t.run(f, [num(start)], st)
                want = next((i for i in range(start, n) if pat[i]), None)
                key = "%s from %d" % ("".join("x" if x else "-" for x in pat), start)
                if not res or t.endless:
                    rep.bad("iterate", f.loc, key, "does not end")
                for v, ev, s in res:
                    p = t.path(v, s)
                    got = re.findall(r"E\d+", p)
                    chk(rep, "iterate", f, (want is not None or re.search("null|^\\W*$|optional", p) is not None) and "HOLE" not in p and set(got) == ({"E%d" % want} if want is not None else set()), "iteration yields %s, expected entry %s" % (p, want), key)
                    if want is not None:
                        now = const(s.env.get(fr))
                        chk(rep, "iterate", f, now is None or now == want + 1, "iteration continues at %s after entry %d" % (now, want), key + ": next")
    rep.require("iterate", 40, "iterator positions")


def run(prog, rep):
    util.rules(rep, __doc__)
    operations(prog, rep)
    rebuild(prog, rep)
    alloc_first(prog, rep)
    capacity(prog, rep)
    order(prog, rep)
    iterate(prog, rep)
