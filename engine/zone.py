"""Differences of numbers (a zone domain): which lower bounds of hi - lo follow from the facts of a path and from what the numbers are."""
import adt
import q
import loops
import rank
from vg import V, kids

BIG = 10 ** 12
SHRINK = ("Vec::remove", "Vec::swap_remove", "Vec::pop", "Vec::clear", "Vec::truncate", "Vec::retain", "Vec::drain", "Vec::split_off", "Vec::dedup", "VecDeque::pop_front", "VecDeque::pop_back", "Vec::resize", "mem::take")


def uncast(v):
    while isinstance(v, V) and v.op == "cast":
        v = v.a[1]
    return v


def lin(v):
    """(value or None, constant): v is that value plus the constant"""
    v = uncast(v)
    k = loops.ival(v)
    if k is not None:
        return None, k
    if v.op == "bin" and v.a[0] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
        x, a = lin(v.a[1])
        y, b = lin(v.a[2])
        if v.a[0].startswith("Add"):
            if x is None:
                return y, a + b
            if y is None:
                return x, a + b
        elif y is None:
            return x, a - b
    return v, 0


def last(name):
    return name.split("::")[-1]


def base_of(c):
    """the collection whose elements c has as many of"""
    while True:
        if c.op == "mapped":
            c = c.a[0]
        elif c.op == "call" and last(c.a[0]) in ("to_vec", "cloned", "copied", "iter", "into_iter", "collect", "rev", "enumerate", "clone", "as_slice", "to_owned", "iter_mut", "as_mut_slice", "deref") and len(c.a) == 2:
            c = c.a[1]
        else:
            return c


class Zone:
    axiom = None
    node = None

    def __init__(self, g, d, depth=3, axiom=None):
        self.g, self.d, self.depth = g, d, depth
        if axiom is not None:
            self.axiom = axiom
        self.E = {}
        self.seen = set()
        self.lens = {}
        for f, p in d:
            self.fact(f, p)
        self.ne = [(f, p) for f, p in d if f.op == "bin" and (f.a[0] == "Eq" and not p or f.a[0] == "Ne" and p)]

    def key(self, v):
        if v is None:
            return 0
        c = loops.len_of(v)
        if c is not None:
            return ("len", base_of(c).id)
        return v.id

    def edge(self, x, y, w):
        """y - x >= w"""
        a, b = self.key(x), self.key(y)
        if a == b:
            return
        m = self.E.setdefault(a, {})
        if m.get(b, -BIG) < w:
            m[b] = w

    def le(self, a, b, k=0):
        """a + k <= b"""
        x, c = lin(a)
        y, e = lin(b)
        self.about(x)
        self.about(y)
        self.edge(x, y, k + c - e)

    def eq(self, a, b):
        self.le(a, b)
        self.le(b, a)

    def fact(self, f, p):
        if f.op == "bin" and len(f.a) >= 3:
            o, a, b = f.a[:3]
            if o == "Lt":
                self.le(a, b, 1) if p else self.le(b, a)
            elif o == "Le":
                self.le(a, b) if p else self.le(b, a, 1)
            elif o == "Eq" and p or o == "Ne" and not p:
                self.eq(a, b)
            elif o in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    k = loops.ival(y)
                    if k == 0 and self.unsigned(x):
                        self.le(y, x, 1)
        elif f.op == "call" and last(f.a[0]) == "is_empty" and len(f.a) > 1:
            n = self.length(f.a[1])
            if n is not None:
                self.about_len(f.a[1])
                if p:
                    self.edge2(n, 0, 0)
                else:
                    self.edge2(0, n, 1)
        elif f.op == "isv" and f.a[1] == "Some" and p:
            self.about(f.a[0])
            o = f.a[0]
            if o.op in ("first", "last", "next", "found", "position") or o.op == "call" and last(o.a[0]) in ("first", "last", "pop", "next", "iter", "min_by", "max_by", "min", "max", "min_by_key", "max_by_key", "first_mut", "last_mut"):
                c = o.a[0] if o.op != "call" else o.a[1]
                if c.op == "agg" and last(c.a[0]) == "Range":
                    self.le(c.a[3], c.a[4], 1)
                self.about_len(c)
                self.edge2(0, self.length(c), 1)
            if o.op == "call" and last(o.a[0]) == "get" and len(o.a) > 2:
                x, k = lin(o.a[2])
                self.about_len(o.a[1])
                self.about(x)
                self.edge2(self.key(x), self.length(o.a[1]), k + 1)

    def edge2(self, a, b, w):
        if a == b:
            return
        m = self.E.setdefault(a, {})
        if m.get(b, -BIG) < w:
            m[b] = w

    def unsigned(self, v):
        v = uncast(v)
        return loops.len_of(v) is not None or v.op == "elem"

    def length(self, c):
        return ("len", base_of(c).id)

    def about_len(self, c):
        """what the length of a collection is"""
        c0 = base_of(c)
        n = ("len", c0.id)
        if n in self.lens:
            return
        self.lens[n] = c0
        self.edge2(0, n, self.axiom(c0) if self.axiom else 0)
        if c0.op == "idx" and c0.a[1].op == "agg" and "Range" in c0.a[1].a[0]:
            r = c0.a[1]
            kind = last(r.a[0])
            f = r.a[3:]
            self.about_len(c0.a[0])
            B = self.length(c0.a[0])
            if kind == "RangeTo":
                self.num(n, f[0], 0)
            elif kind == "RangeFrom":
                x, k = lin(f[0])
                if x is None:
                    self.edge2(B, n, -k)
                    self.edge2(n, B, k)
            elif kind == "Range":
                x, k = lin(f[0])
                if x is None:
                    self.num(n, f[1], -k)
        elif c0.op == "subslice" and c0.a[2]:
            self.about_len(c0.a[0])
            B, k = self.length(c0.a[0]), sum(c0.a[1])
            self.edge2(B, n, -k)
            self.edge2(n, B, k)
        elif c0.op == "field" and c0.a[0].op == "call" and last(c0.a[0].a[0]) == "split_at":
            sp = c0.a[0]
            self.about_len(sp.a[1])
            B = self.length(sp.a[1])
            if str(c0.a[1]) == "0":
                self.num(n, sp.a[2], 0)
            else:
                x, k = lin(sp.a[2])
                if x is None:
                    self.edge2(B, n, -k)
                    self.edge2(n, B, k)
        elif c0.op == "agg" and c0.a[0] in ("array", "tuple") or c0.op == "new":
            k = len(c0.a) - 3 if c0.op == "agg" else 0
            grow = [e for e in self.g.events("call") if e.args and e.args[0] is c0 and (e.name in q.PUSH or e.name in q.EXTEND or e.name in ("Vec::append", "Vec::insert"))]
            less = [e for e in self.g.events("call") if e.args and e.args[0] is c0 and e.name in SHRINK]
            if less:
                return
            if not grow and c0.op == "agg":
                self.edge2(n, 0, -k)
            if self.node is not None:
                for e in grow:
                    if e.node.id != self.node.id and not adt.skips(self.g, self.g.root.meta[0].id, None, e.node.id, {self.node.id}):
                        if e.name in q.PUSH or e.name == "Vec::insert":
                            k += 1
                        else:
                            self.about_len(e.args[1])
                            k += max(0, self.dist(0, self.length(e.args[1])))
            self.edge2(0, n, k)
        elif c0.op == "call" and c0.a[0] == "vec::from_elem":
            self.num(n, c0.a[2], 0)
        elif c0.op == "phi" and self.depth > 0:
            ws = [w for _, w in rank.settings(self.g, c0)]
            if ws and len(ws) < 6:
                k = min(self.sub_min(w) for w in ws)
                self.edge2(0, n, k)

    def sub_min(self, w):
        c = base_of(w)
        if c.op == "agg" and c.a[0] in ("array",):
            return len(c.a) - 3
        return 0

    def num(self, n, v, k):
        """node n is v + k"""
        x, c = lin(v)
        self.about(x)
        self.edge2(n, self.key(x), -(c + k))
        self.edge2(self.key(x), n, c + k)

    def about(self, v):
        if v is None or v.id in self.seen:
            return
        self.seen.add(v.id)
        c = loops.len_of(v)
        if c is not None:
            self.about_len(c)
            return
        if v.op == "elem" or v.op == "field" and str(v.a[1]) == "0" and v.a[0].op == "elem":
            e = v if v.op == "elem" else v.a[0]
            src = e.a[0]
            if v.op == "field":
                # the counter of an enumeration
                x = src
                while x.op == "call" and last(x.a[0]) in ("rev", "enumerate", "skip", "take", "filter"):
                    if last(x.a[0]) == "enumerate":
                        self.about_len(x.a[1])
                        self.edge2(0, v.id, 0)
                        self.edge2(v.id, self.length(x.a[1]), 1)
                    x = x.a[1]
                return
            self.in_range(v, src)
        elif v.op == "call":
            nm = last(v.a[0])
            if nm == "min" and len(v.a) >= 3:
                self.le(v, v.a[1])
                self.le(v, v.a[2])
                if all(loops.len_of(uncast(x)) is not None or (loops.ival(x) or 0) > 0 or uncast(x).op in ("elem",) for x in v.a[1:3]):
                    self.edge2(0, v.id, 0)
            elif nm == "max" and len(v.a) >= 3:
                self.le(v.a[1], v)
                self.le(v.a[2], v)
            elif nm == "gen_range" and len(v.a) >= 3:
                self.in_range(v, v.a[2])
            elif nm == "saturating_sub":
                self.edge2(0, v.id, 0)
                self.le(v, v.a[1])
        elif v.op == "bin" and v.a[0].startswith("Mul"):
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                k = loops.ival(b)
                if k is not None and k >= 1:
                    x, c = lin(a)
                    self.about(x)
                    m = self.dist(0, self.key(x)) + c
                    if m >= 0:
                        self.edge2(0, v.id, m * k)
                        self.le(a, v)
        elif v.op == "bin" and v.a[0] in ("Div", "Rem"):
            k = loops.ival(v.a[2])
            if k is not None and k >= 1:
                self.about(lin(v.a[1])[0])
                if v.a[0] == "Div" and loops.len_of(uncast(v.a[1])) is not None:
                    self.edge2(0, v.id, 0)
                    self.le(v, v.a[1])
                    self.tighten()
                    m = self.dist(0, self.key(uncast(v.a[1])))
                    if m > 0:
                        self.edge2(0, v.id, m // k)
                    if k >= 2:
                        if self.dist(0, self.key(uncast(v.a[1]))) >= 1:
                            self.le(v, v.a[1], 1)
                if v.a[0] == "Rem":
                    self.edge2(v.id, 0, -(k - 1))
                    self.edge2(0, v.id, 0)
            elif v.a[0] == "Rem":
                self.le(v, v.a[2], 1)
                self.edge2(0, v.id, 0)
        elif v.op == "count":
            for e in self.g.events("call"):
                if e.name == "Iterator::next" and e.val is not None and e.val.a and e.val.a[-1] == v.a[0]:
                    c = loops.whole(e.args[0])
                    if c is None and e.args[0].op == "call" and last(e.args[0].a[0]) == "enumerate":
                        c = loops.whole(e.args[0].a[1])
                    self.edge2(0, v.id, 0)
                    if c is not None:
                        self.about_len(c)
                        self.edge2(v.id, self.length(c), 1)
        elif v.op in ("vfield", "okval"):
            o = v.a[0]
            if o.op in ("position", "found") and v.op == "vfield":
                if o.op == "position":
                    self.about_len(o.a[0])
                    self.edge2(0, v.id, 0)
                    self.edge2(v.id, self.length(o.a[0]), 1)
            elif o.op == "call" and last(o.a[0]) in ("position", "rposition", "binary_search"):
                self.about_len(o.a[1])
                self.edge2(0, v.id, 0)
                self.edge2(v.id, self.length(o.a[1]), 1)
        elif v.op == "phi":
            low = None
            for pr, w in rank.settings(self.g, v):
                x, k = lin(w)
                if x is None:
                    low = k if low is None else min(low, k)
                elif x is v and k >= 0:
                    continue
                else:
                    low = -BIG
            if low is not None and low > -BIG:
                self.edge2(0, v.id, low)
            for l in loops.loops(self.g):
                # counts the elements of what is iterated over
                if l.index and l.index[0] is v and l.index[1] == [0] and l.nexts:
                    for e in l.nexts:
                        c = loops.whole(e.args[0])
                        if c is None:
                            continue
                        self.about_len(c)
                        inside = any(f.op == "isv" and f.a[1] == "Some" and p and f.a[0] is e.val for f, p in self.d)
                        self.edge2(v.id, self.length(c), 1 if inside else 0)

    def in_range(self, v, src):
        src = src if src.op != "call" or last(src.a[0]) not in ("rev", "filter", "skip", "take", "step_by", "into_iter") else src.a[1]
        if src.op == "agg" and last(src.a[0]) == "Range":
            self.le(src.a[3], v)
            self.le(v, src.a[4], 1)
        elif src.op == "agg" and last(src.a[0]) == "RangeFrom":
            self.le(src.a[3], v)
        elif src.op == "call" and "RangeInclusive" in src.a[0] and len(src.a) >= 3:
            self.le(src.a[1], v)
            self.le(v, src.a[2])

    def dist(self, a, b):
        """greatest provable lower bound of b - a"""
        D = {a: 0}
        for _ in range(len(self.E) + 2):
            ch = False
            for x, m in self.E.items():
                if x not in D:
                    continue
                for y, w in m.items():
                    n = D[x] + w
                    if n > D.get(y, -BIG):
                        if n > BIG // 2:
                            return BIG
                        D[y] = n
                        ch = True
            if not ch:
                break
        return D.get(b, -BIG)

    def proves(self, lo, hi, k):
        """lo + k <= hi"""
        x, a = lin(lo)
        y, b = lin(hi) if isinstance(hi, V) else (None, hi)
        self.about(x)
        self.about(y)
        self.tighten()
        return self.bound(self.key(x), self.key(y)) >= k + a - b

    def within(self, i, c, k=1):
        """i + k <= length of c"""
        x, a = lin(i)
        self.about(x)
        self.about_len(c)
        self.tighten()
        n = self.length(c)
        if self.bound(self.key(x), n) >= k + a:
            return True
        if x is not None and x.op == "bin" and x.a[0].startswith("Sub"):
            # (p - q) + a: at most p + a if q is not negative
            p, pk = lin(x.a[1])
            r, rk = lin(x.a[2])
            self.about(p)
            self.about(r)
            if self.bound(self.key(p), n) + self.bound(0, self.key(r)) + rk >= k + a + pk:
                return True
        return False

    def tighten(self):
        """half of something is less than it, if it isn't empty; what differs from its least value exceeds it"""
        for f, p in self.ne:
            for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                k = loops.ival(b)
                x, c = lin(a)
                if k is not None and x is not None and self.dist(0, self.key(x)) + c == k:
                    self.edge(None, x, k - c + 1)

    def bound(self, a, b):
        if a == b:
            return 0
        return self.dist(a, b)
