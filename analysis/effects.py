"""Interprocedural effect summaries: which functions may let an exception escape."""
from .model import Node

ASSERT_MACROS = ("TIRO_DEBUG_ASSERT", "TIRO_UNREACHABLE", "TIRO_DEBUG_NOT_NULL", "TIRO_ASSERT", "assert", "TIRO_CHECK_IMPL")

# library functions without noexcept in their declaration that do not throw
NOTHROW_EXT = {
    "free", "malloc", "calloc", "memcpy", "memmove", "memset", "strlen", "memcmp", "strcmp", "std::exchange", "std::swap", "std::fflush", "fflush",
    "std::memcpy", "std::memset", "std::memmove", "std::strlen", "abort", "std::abort", "std::free", "std::malloc",
    "std::move", "std::forward", "std::addressof", "std::min", "std::max", "std::terminate", "std::get_if", "__builtin_expect",
    "operator delete", "std::char_traits::length", "std::unique_ptr::release", "std::unique_ptr::get", "std::make_pair", "std::tie",
    "std::operator==", "std::operator!=",
}
NOTHROW_PREFIX = ("std::basic_string_view::basic_string_view", "std::initializer_list::", "std::numeric_limits::", "std::unique_ptr::",
                  "std::optional::operator->", "std::optional::operator*", "std::optional::operator bool", "std::optional::has_value",
                  "std::shared_ptr::operator", "__builtin_")


def in_assert(n):
    m = n.macro
    return m is not None and m in ASSERT_MACROS


def enclosing_try(n):
    """nearest enclosing try statements (inner to outer) whose body contains n"""
    r = []
    child, cur = n, n.parent
    while cur is not None:
        if cur.k == "try":
            body = cur.child(0)
            if body is not None and body.id == child.id:
                r.append(cur)
        child, cur = cur, cur.parent
    return r


def catches_all(t):
    return any(c.k == "catch" and c.d.get("ct") == "..." for c in t.children[1:])


def absorbed(n):
    return any(catches_all(t) for t in enclosing_try(n))


class Throws:
    def __init__(self, prog, noexcept_absorbs=True):
        from .guards import strip_targs
        self.strip = strip_targs
        self.prog = prog
        self.noexcept_absorbs = noexcept_absorbs
        self.why = {}     # usr -> (node, callee usr or None, text)
        self._solve()

    def ext_nothrow(self, c):
        q = self.strip(c.q)
        if q in NOTHROW_EXT or q.startswith(NOTHROW_PREFIX):
            return True
        return False

    def sites(self, fn):
        """yield (node, kind, callees) for potentially throwing elements that are not absorbed in fn itself"""
        for n in fn.walk():
            if n.k == "throw":
                if not in_assert(n) and not absorbed(n):
                    yield n, "throw", None
            elif n.k == "new":
                if n.d.get("pl"):
                    continue
                if not in_assert(n) and not absorbed(n):
                    yield n, "new", None
            elif n.k == "call":
                if n.d.get("nx") or in_assert(n) or absorbed(n):
                    continue
                if n.q in ("operator new", "operator delete", "tiro::detail::assert_fail"):     # a failed assertion is an internal error, as in_assert
                    continue
                yield n, "call", None

    def _solve(self):
        prog = self.prog
        rev = {}
        work = []
        for f in prog.fns.values():
            if f.flag("nx") and self.noexcept_absorbs:
                continue
            for n, kind, _ in self.sites(f):
                if kind != "call":
                    if f.usr not in self.why:
                        self.why[f.usr] = (n, None, kind)
                        work.append(f.usr)
                    continue
                ts = prog.targets(n)
                u = n.d.get("u")
                if not u:
                    if f.usr not in self.why:
                        self.why[f.usr] = (n, None, "indirect call")
                        work.append(f.usr)
                    continue
                if not ts:
                    if not self.ext_nothrow(n):
                        if f.usr not in self.why:
                            self.why[f.usr] = (n, None, "external " + n.q)
                            work.append(f.usr)
                    continue
                for t in ts:
                    rev.setdefault(t.usr, []).append((f, n))
        while work:
            u = work.pop()
            for f, n in rev.get(u, ()):
                if f.usr not in self.why:
                    self.why[f.usr] = (n, u, "call")
                    work.append(f.usr)

    def chain(self, usr, limit=12):
        out = []
        while usr in self.why and len(out) < limit:
            n, nxt, text = self.why[usr]
            f = self.prog.fns[usr]
            out.append("%s: %s %s" % (n.loc, f.q, (text if nxt is None else "calls " + n.q)))
            usr = nxt
        return out

    def site_throws(self, n):
        """reason why this element may throw or None"""
        if n.k != "call":
            return n.k
        u = n.d.get("u")
        if not u:
            return "indirect call"
        ts = self.prog.targets(n)
        if not ts:
            return None if self.ext_nothrow(n) else "external " + n.q
        for t in ts:
            if t.usr in self.why:
                return "call of %s" % t.q
        return None
