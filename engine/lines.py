"""A function run on an abstract line of text: which edges can be taken, what values are there, for every line of a class."""
import loops
from vg import V, show

TRIM = ("str::trim", "str::trim_end", "str::trim_start", "str::trim_right", "str::trim_end_matches", "str::trim_right_matches", "String::as_str", "str::to_string", "ToString::to_string", "Clone::clone", "String::from", "str::to_owned",
        "ToOwned::to_owned", "Into::into", "From::from", "AsRef::as_ref", "Deref::deref", "String::as_bytes", "str::as_bytes", "String::clone", "Borrow::borrow")
TOP = "top"


def text(v):
    """the text a constant stands for (a string or a character)"""
    if not isinstance(v, V) or v.op != "const" or isinstance(v.a[1], bool):
        return None
    if v.a[0] in ("str", "&str"):
        return str(v.a[1])
    if v.a[0] == "char":
        return chr(v.a[1]) if isinstance(v.a[1], int) else str(v.a[1])
    return None


class Line:
    """all lines which are `prefix` (exact), or which start with it, are none of noteq, start with none of notpref and have at least minlen bytes"""

    def __init__(self, name, prefix, exact=True, notpref=(), noteq=(), minlen=0, assume=None):
        self.name, self.prefix, self.exact, self.notpref, self.noteq = name, prefix, exact, set(notpref), set(noteq)
        self.minlen = max(len(prefix), minlen)
        self.assume = assume

    def eq(self, s):
        if self.exact:
            return self.prefix == s
        if not s.startswith(self.prefix) or s in self.noteq or any(s.startswith(p) for p in self.notpref) or len(s) < self.minlen:
            return False
        return None

    def starts(self, s):
        if self.prefix.startswith(s):
            return True
        if self.exact or not s.startswith(self.prefix) or any(s.startswith(p) for p in self.notpref):
            return False
        return None

    def less(self, k, strict, left):
        """k < len (left), len < k (not left), or <= if not strict"""
        lo, hi = (self.minlen, self.minlen if self.exact else 1 << 40)
        if left:
            t = (lambda n: k < n) if strict else (lambda n: k <= n)
        else:
            t = (lambda n: n < k) if strict else (lambda n: n <= k)
        a, b = t(lo), t(hi)
        return a if a == b else None


class Run:
    def __init__(self, g, line, cls):
        self.g, self.line, self.cls = g, line, cls
        self.edges, self.nodes = set(), set()
        while True:
            n = len(self.edges)
            self._walk()
            if len(self.edges) == n:
                break

    def is_line(self, v):
        while isinstance(v, V) and v.op == "call" and v.a[0] in TRIM:
            v = v.a[1]
        return v is self.line

    def _walk(self):
        g = self.g
        todo = [g.root.meta[0].id]
        seen = set()
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            self.nodes.add(u)
            for x, lab in g.nodes[u].succ:
                fs = g.edge_facts(g.nodes[u], lab)
                if fs is None or not g.nodes[x].facts:
                    continue
                if all(self.truth(f) in (None, p) for f, p in fs):
                    self.edges.add((u, x))
                    todo.append(x)

    def incoming(self, v):
        at = v.a[-1][1]
        return [w for p, w in self.g.phis.get(v.id, []) if (p, at) in self.edges]

    def vals(self, v, seen=None):
        """the values v can have for the lines of the class"""
        seen = set() if seen is None else seen
        if v.op == "phi" and v.id in self.g.phis:
            if v.id in seen:
                return []
            seen.add(v.id)
            out = []
            for w in self.incoming(v):
                for x in self.vals(w, seen):
                    if x not in out:
                        out.append(x)
            return out
        if v.op in ("field", "vfield") and v.a[0].op in ("phi", "field", "vfield"):
            bs = self.vals(v.a[0], set(seen))
            if bs and (len(bs) > 1 or bs[0] is not v.a[0]):
                out = []
                for b in bs:
                    if v.op == "vfield" and b.op == "agg" and b.a[1] != v.a[1]:
                        continue
                    w = self.g.field(b, v.a[1]) if v.op == "field" else self.g.vfield(b, v.a[1], v.a[2])
                    for x in self.vals(w, set(seen)):
                        if x not in out:
                            out.append(x)
                return out
        return [v]

    def truth(self, v, seen=()):
        """True / False / None (either) / TOP (not reached yet)"""
        c = self.cls
        if c.assume is not None:
            r = c.assume(self, v)
            if r is not None:
                return r
        if v.op == "const" and isinstance(v.a[1], bool):
            return v.a[1]
        if v.op == "un" and v.a[0] == "Not":
            r = self.truth(v.a[1], seen)
            return (not r) if isinstance(r, bool) else r
        if v.op == "phi" and v.id in self.g.phis:
            if v.id in seen:
                return TOP
            rs = [self.truth(w, seen + (v.id,)) for w in self.incoming(v)]
            rs = [r for r in rs if r != TOP]
            return TOP if not rs else rs[0] if all(r is rs[0] for r in rs) else None
        if v.op == "bin" and v.a[0] in ("BitAnd", "BitOr"):
            a, b = self.truth(v.a[1], seen), self.truth(v.a[2], seen)
            z = v.a[0] == "BitOr"
            if a is z or b is z:
                return z
            return (not z) if a is (not z) and b is (not z) else None
        if v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            r = self._eq(v.a[1], v.a[2])
            return r if r is None or v.a[0] == "Eq" else not r
        if v.op == "bin" and v.a[0] in ("Lt", "Le"):
            for a, b, left in ((v.a[1], v.a[2], True), (v.a[2], v.a[1], False)):
                k, x = loops.ival(a), loops.len_of(b)
                if k is not None and x is not None and self.is_line(x):
                    return c.less(k, v.a[0] == "Lt", left)
            return None
        if v.op == "call" and v.a[0] in ("str::starts_with", "String::starts_with", "slice::starts_with") and self.is_line(v.a[1]):
            s = text(v.a[2])
            return None if s is None else c.starts(s)
        if v.op == "call" and v.a[0] in ("str::is_empty", "String::is_empty"):
            if self.is_line(v.a[1]):
                return c.eq("")
            if v.a[1].op in ("vfield", "okval", "idx") and any(self.rest(v.a[1], n) for n in range(1, c.minlen)):
                return False
            return None
        if v.op == "isv":
            rs = []
            for b in self.vals(v.a[0]):
                if b.op == "agg" and b.a[1]:
                    r = b.a[1] == v.a[1]
                elif b.op == "call" and b.a[0] == "str::strip_prefix" and self.is_line(b.a[1]) and text(b.a[2]) is not None and v.a[1] in ("Some", "None"):
                    r = c.starts(text(b.a[2]))
                    r = r if r is None or v.a[1] == "Some" else not r
                elif b.op == "call" and b.a[0] == "Option::filter" and v.a[1] in ("Some", "None"):
                    r = self.truth(self.g.isv(b.a[1], "Some"), seen)
                    if r is True:
                        r = self.truth(b.a[2], seen)
                    r = None if not isinstance(r, bool) else r is (v.a[1] == "Some")
                else:
                    r = None
                rs.append(r)
            if not rs:
                return TOP
            return rs[0] if all(r is rs[0] for r in rs) else None
        return None

    def _eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            s = text(y)
            if s is not None and self.is_line(x):
                return self.cls.eq(s)
            if s is not None and x.op == "idx" and self.is_line(x.a[0]) and x.a[1].op == "agg" and str(x.a[1].a[0]).endswith(("RangeTo", "Range")):
                f = dict(zip(x.a[1].a[2], x.a[1].a[3:]))
                if loops.ival(f.get("end")) == len(s) and ("start" not in f or loops.ival(f["start"]) == 0):
                    return self.cls.starts(s)
            k, z = loops.ival(y), loops.len_of(x)
            if k is not None and z is not None and self.is_line(z):
                p, n = self.cls.less(k, False, True), self.cls.less(k, False, False)
                return True if p and n else False if p is False or n is False else None
        return None

    def rest(self, v, n):
        """v: the line without its first n bytes"""
        while isinstance(v, V) and v.op == "call" and v.a[0] in TRIM:
            v = v.a[1]
        if v.op in ("phi", "vfield", "field") :
            vs = self.vals(v)
            if vs and not (len(vs) == 1 and vs[0] is v):
                return all(self.rest(w, n) for w in vs)
        if v.op == "idx" and self.is_line(v.a[0]) and v.a[1].op == "agg" and str(v.a[1].a[0]).endswith("RangeFrom"):
            return loops.ival(v.a[1].a[3]) == n
        x = v.a[0] if v.op in ("okval", "vfield") else None
        while x is not None and x.op == "call" and x.a[0] == "Option::filter":
            x = x.a[1]
        if x is not None and x.op == "call":
            if x.a[0] == "str::strip_prefix" and self.is_line(x.a[1]):
                s = text(x.a[2])
                return s is not None and len(s) == n and self.cls.starts(s) is True
            if x.a[0] == "str::get" and self.is_line(x.a[1]) and x.a[2].op == "agg" and str(x.a[2].a[0]).endswith("RangeFrom"):
                return loops.ival(x.a[2].a[3]) == n
        return False

    def succ(self, u):
        return [x for x, lab in self.g.nodes[u].succ if (u, x) in self.edges]

    def reach(self, start, stop=()):
        """nodes reached from behind start, not going on from those in stop"""
        seen, todo = set(), list(self.succ(start))
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            if u not in stop:
                todo += self.succ(u)
        return seen
