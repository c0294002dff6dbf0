"""Loop structure on top of the value-flow graph: what a loop iterates, how it can be left."""
from vg import V, kids, show
import q

FULLVIEW = {"Iterator::rev", "Iterator::enumerate"}
CUTVIEW = {"Iterator::take", "Iterator::skip", "Iterator::step_by", "Iterator::take_while", "Iterator::skip_while"}


def ival(v):
    try:
        return int(v.a[1]) if v.op == "const" else None
    except (ValueError, TypeError):
        return None


def whole(v):
    """the collection all of whose elements are visited by iterating v, or None if v is a cut view"""
    n = 0
    while n < 20:
        n += 1
        if v.op == "call" and v.a[0] in FULLVIEW:
            v = v.a[1]
            continue
        if v.op == "call" and v.a[0] == "Vec::drain" and v.a[2].op == "agg" and "RangeFull" in str(v.a[2].a[0]):
            v = v.a[1]
            continue
        if v.op == "call" and v.a[0] in CUTVIEW:
            return None
        if v.op in ("filtered",):
            return None
        if v.op == "mapped":
            v = v.a[0]
            continue
        if v.op == "idx" and v.a[1].op == "agg" and "Range" in str(v.a[1].a[0]):
            r = v.a[1]
            nm = r.a[0].split("::")[-1]
            fs = dict(zip(r.a[2], r.a[3:]))
            base = v.a[0]
            lo_ok = "start" not in fs or ival(fs["start"]) == 0
            hi_ok = "end" not in fs or is_len(fs["end"], base)
            if lo_ok and hi_ok and nm != "RangeInclusive":
                v = base
                continue
            return None
        if v.op == "subslice":
            return None
        return v
    return None


def unfilter(v):
    """(collection, predicates): iterating v visits all elements of collection but those that fail one of the predicates; (None, []) for a cut view"""
    fs, n = [], 0
    while n < 20:
        n += 1
        if v.op == "call" and v.a[0] in FULLVIEW:
            v = v.a[1]
        elif v.op == "mapped" and v.a[3] not in ("Iterator::filter_map", "Iterator::map_while"):
            v = v.a[0]
        elif v.op == "filtered" and v.a[3] == "Iterator::filter":
            fs.append(v.a[2])
            v = v.a[0]
        else:
            return whole(v), fs
    return None, []


def len_of(v):
    """the collection whose length v is, else None"""
    if v.op == "len":
        return v.a[0]
    if v.op == "call" and v.a[0] in ("Vec::len", "slice::len", "str::len", "String::len", "HashMap::len", "VecDeque::len", "ExactSizeIterator::len", "Iterator::count"):
        return v.a[1]
    return None


def is_len(v, coll):
    return len_of(v) is coll


def parts(c):
    """the collections a chained one consists of"""
    if c.op == "call" and c.a[0] == "Iterator::chain":
        return parts(c.a[1]) + parts(c.a[2])
    return [c]


class Loop:
    def __init__(self, g, head, body):
        self.g = g
        self.head = head
        self.body = body
        self.inner = [b for h, b in g.loops.items() if h != head and h in body and b < body]
        own = set(body)
        for b in self.inner:
            own -= b
        self.own = own
        self.nexts = [e for u in sorted(own) for e in g.nodes[u].events if e.kind == "call" and e.name == "Iterator::next" and g.nodes[u].facts]
        self.index = None
        for v in list(g.pool.t.values()):
            if v.op == "phi" and v.id in g.phis and v.a[-1][1] == head:
                ins = g.phis[v.id]
                init = [w for p, w in ins if p not in body]
                step = [w for p, w in ins if p in body]
                if step and all(w.op == "bin" and w.a[0] == "Add" and (w.a[1] is v and ival(w.a[2]) == 1 or w.a[2] is v and ival(w.a[1]) == 1) for w in step):
                    if init and all(ival(w) is not None for w in init):
                        self.index = (v, [ival(w) for w in init])
        self.exits = []
        ends = set()
        for u in body:
            n = g.nodes[u]
            for s, label in n.succ:
                if s in body:
                    continue
                ef = g.edge_facts(n, label)
                if ef is None:
                    continue
                for x in ef if g.nodes[s].facts else ():
                    v, p = (g.vals[x[0]], x[1]) if not isinstance(x[0], V) else x
                    if v.op == "isv" and not p:
                        ends.add(v.a[0].id)
                ds = []
                for d in g.OUT.get(u) or []:
                    x = g._extend(d, ef)
                    if x is not None:
                        ds.append([(g.vals[i], p) for i, p in x])
                if ds and (u in own or True):
                    self.exits.append((u, s, ds))
        # (an Iterator::next which does not decide whether the loop goes on does not drive it)
        self.nexts = [e for e in self.nexts if e.val is None or e.val.id in ends]

    def exhausted(self, d):
        for v, p in d:
            if v.op == "isv" and v.a[1] == "Some" and not p and any(v.a[0] is e.val for e in self.nexts):
                return True
            if self.index and v.op == "bin":
                i = self.index[0]
                if v.a[0] == "Lt" and v.a[1] is i and not p:
                    return True
                if v.a[0] in ("Eq", "Ge") and v.a[1] is i and p:
                    return True
                if v.a[0] == "Le" and v.a[2] is i and p:
                    return True
        return False

    def early(self):
        """[(node, facts)] leaving the loop otherwise than by exhaustion of what it iterates"""
        return [(u, s, d) for u, s, ds in self.exits for d in ds if not self.exhausted(d) and self.g.nodes[s].kind is not None]

    def latches(self):
        """fact disjuncts with which an iteration ends and the next one is attempted"""
        out = []
        for p, h in self.g.back:
            if h == self.head:
                for lab in [l for s, l in self.g.nodes[p].succ if s == h]:
                    ef = self.g.edge_facts(self.g.nodes[p], lab)
                    if ef is None:
                        continue
                    for d in self.g.OUT.get(p) or []:
                        x = self.g._extend(d, ef)
                        if x is not None:
                            out.append((p, [(self.g.vals[i], q_) for i, q_ in x]))
        return out

    def sources(self):
        """collections iterated in full by this loop (element-wise or by index 0..len)"""
        out = []
        for e in self.nexts:
            c = payload(self.g, e.args[0])
            if c.op == "agg" and "Range" in str(c.a[0]):
                fs = dict(zip(c.a[2], c.a[3:]))
                if ival(fs.get("start", c)) == 0:
                    b = fs.get("end")
                    if b is not None and len_of(b) is not None:
                        out.append(len_of(b))
                continue
            if c.op == "call" and c.a[0] == "Iterator::zip":
                out += [x for x in (whole(c.a[1]), whole(c.a[2])) if x is not None]
                continue
            for y in parts(c):
                w = whole(y)
                if w is not None:
                    out.append(w)
        if self.index and self.index[1] == [0] * len(self.index[1]):
            i = self.index[0]
            for u, s, ds in self.exits:
                for d in ds:
                    for v, p in d:
                        if v.op == "bin" and v.a[0] == "Lt" and v.a[1] is i and not p and len_of(v.a[2]) is not None:
                            out.append(len_of(v.a[2]))
        return out


    def filtered(self):
        """[(collection, predicates)] iterated by this loop through filters"""
        return [x for x in (unfilter(e.args[0]) for e in self.nexts) if x[0] is not None]


def loops(g):
    c = g.__dict__.get("_loops_cache")
    if c is None:
        c = [Loop(g, h, b) for h, b in g.loops.items() if g.nodes[h].facts and g.nodes[h].kind != "chead"]
        g._loops_cache = c
    return c


def payload(g, v):
    """an option's content, where it is Some in one way only"""
    if v.op == "vfield" and v.a[1] == "Some" and v.a[0].op == "phi":
        ls = g.leaves(v.a[0])
        some = [x for x in ls if x.op == "agg" and x.a[1] == "Some"]
        if len(some) == 1 and all(x.op == "agg" and x.a[1] in ("Some", "None") for x in ls):
            return some[0].a[3]
    return v


def element_of(v):
    """collection v is an element of (by iteration or by position), else None"""
    if v.op == "elem":
        return v.a[0]
    if v.op in ("idx", "cidx"):
        return v.a[0]
    return None
