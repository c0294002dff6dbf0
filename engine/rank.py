"""Path obligations with flags lifted, sorting and cutting of collections."""
import itertools
from vg import V, kids, show
import adt
import loops
import q


# ---------------------------------------------------------------- what is known
def truths(g, r, val=True):
    """fact lists under which the boolean expression r has the value val"""
    if r.op == "un" and r.a[0] == "Not":
        return truths(g, r.a[1], not val)
    out = []
    for w, d in q.resolve(g, r, []):
        if w.op == "const" and isinstance(w.a[1], bool):
            if w.a[1] is val:
                out.append(d)
        elif w.op == "bin" and w.a[0] in ("BitAnd", "BitOr") and w is not r or w is r and w.op == "bin" and w.a[0] in ("BitAnd", "BitOr"):
            a, b = truths(g, w.a[1], val), truths(g, w.a[2], val)
            if (w.a[0] == "BitAnd") == val:
                out += [q.merge(q.merge(d, x), y) for x in a for y in b]
            else:
                out += [q.merge(d, x) for x in a + b]
        elif w.op == "un" and w.a[0] == "Not":
            out.append(list(d) + [(w.a[1], not val)])
        elif option_test(g, w) is not None:
            o, r, dflt = option_test(g, w)
            some = g.isv(o, "Some")
            out += [q.merge(list(d) + [(some, True)], x) for x in truths(g, r, val)]
            if isinstance(dflt, bool):
                out += [list(d) + [(some, False)]] if dflt is val else []
            else:
                out += [q.merge(list(d) + [(some, False)], x) for x in truths(g, dflt, val)]
        else:
            out.append(list(d) + [(w, val)])
    return out


def option_test(g, w):
    """(option, result for its payload, result for None) of a boolean map_or / is_some_and / is_none_or"""
    if w.op != "call" or w.a[0] not in ("Option::map_or", "Option::is_some_and", "Option::is_none_or") or not isinstance(w.a[1], V):
        return None
    if w.a[0] == "Option::map_or":
        if len(w.a) < 4:
            return None
        x = w.a[3]
        return w.a[1], w.a[2], x.a[1] if x.op == "const" and isinstance(x.a[1], bool) else x
    return w.a[1], w.a[2], w.a[0] == "Option::is_none_or"


def known(g, d, pred, depth=4, whole=None):
    """pred is established by the facts d: directly, through a flag all of whose settings establish it, or through any/all/find"""
    if pred(d):
        return True
    if depth == 0:
        return False
    for v, p in d:
        if v.op == "phi" and g.is_bool(v):
            fl = adt.flag_edges(g, v, p)
            ws = [(w, pr) for w, pr in g.leaves_with_edges(v) if not (w.op == "const" and isinstance(w.a[1], bool))]
            alts = list(fl)
            for w, pr in ws:
                for dd in q._fs(g, g.OUT.get(pr) or []):
                    alts.append(dd + [(w, p)])
            if alts and all(known(g, x, pred, depth - 1) for x in alts):
                return True
        r = None
        if v.op == "any" and p or v.op == "all" and not p:
            r = truths(g, v.a[2], v.op == "any")
        elif v.op == "isv" and v.a[1] == "Some" and p and v.a[0].op in ("found", "position"):
            r = truths(g, v.a[0].a[1], True)
        elif v.op == "bin" and v.a[0] in ("BitAnd", "BitOr"):
            r = truths(g, v, p)
        elif option_test(g, v) is not None:
            o, x, dflt = option_test(g, v)
            some = g.isv(o, "Some")
            r = [[(some, True), (x, p)]]
            if not isinstance(dflt, bool):
                r.append([(some, False), (dflt, p)])
            elif dflt is p:
                r.append([(some, False)])
        if r and all(known(g, x, pred, depth - 1) for x in r):
            return True
    return False


def scan_values(g):
    return [v for v in list(g.pool.t.values()) if v.op in ("any", "all", "found", "position")]


# ---------------------------------------------------------------- paths
def avoid(g, start, node, stops, region=None, panics=True):
    """edges after node `start` on which it is decided that `node` is not executed before one of `stops`: [(from, to, facts)].
    A stop reached means avoidance. Without `panics`, only edges from which a stop can be reached."""
    tgt = node if isinstance(node, (set, frozenset)) else {node}

    # facts along the paths that come through `start`
    IN, OUT = g.solve(start, g.IN.get(start) or [], stops=set(stops) | (tgt - {start}), region=region)

    def reach(s0):
        seen, st = {s0}, [s0]
        while st:
            u = st.pop()
            if u in tgt:
                return True
            if u in stops:
                continue
            for s, _ in g.nodes[u].succ:
                if s not in seen and (IN.get(s) or s == start and g.nodes[s].facts) and (region is None or s in region):
                    seen.add(s)
                    st.append(s)
        return False

    def ends(s0):
        seen, st = {s0}, [s0]
        while st:
            u = st.pop()
            if u in stops:
                return True
            for s, _ in g.nodes[u].succ:
                if s not in seen and g.nodes[s].facts and (region is None or s in region):
                    seen.add(s)
                    st.append(s)
        return False
    out = []
    done, st = {start}, [start]
    while st:
        u = st.pop()
        if u in tgt and u != start:
            continue
        for s, label in g.nodes[u].succ:
            if region is not None and s not in region or not g.nodes[s].facts:
                continue
            if s in stops and s not in tgt or not reach(s):
                ef = g.edge_facts(g.nodes[u], label)
                if ef is None:
                    continue
                ds = [x for x in (g._extend(d, ef) for d in OUT.get(u) or []) if x is not None]
                ds = q._fs(g, ds)
                if ds and (panics or ends(s)):
                    out.append((u, s, ds))
            elif s not in done:
                done.add(s)
                st.append(s)
    return out


def in_loop(g, node):
    """innermost loop containing node (or None)"""
    c = [l for l in loops.loops(g) if node.id in l.body]
    return min(c, key=lambda l: len(l.body)) if c else None


def loop_over(g, coll):
    return [l for l in loops.loops(g) if any(x is coll for x in l.sources())]


def anchor(g, e):
    """the node of the enclosing (non-closure) code at which event e happens: the call site of the closure it sits in"""
    by = adt._closures(g)
    n = e.node
    i = e.inst
    while i is not None:
        if i.id in by:
            n = by[i.id][1].node
        i = i.parent
    return n


# ---------------------------------------------------------------- sorting
SORTS = {"slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable_by_key", "slice::sort", "slice::sort_unstable"}
CMP = {"PartialOrd::partial_cmp", "Ord::cmp", "f64::total_cmp", "f32::total_cmp"}


def _ab(v):
    r = set()
    for x in q.subs(v):
        if x.op == "elem":
            s = x.a[-1]
            if isinstance(s, tuple) and isinstance(s[-1], tuple) and len(s[-1]) > 1 and s[-1][-1] in ("A", "B"):
                r.add(s[-1][-1])
            elif isinstance(s, tuple) and s[-1] in ("A", "B"):
                r.add(s[-1])
    return r


def _cmp(v):
    """(x, y, reversed) of a comparison value"""
    rev = False
    n = 0
    while n < 12:
        n += 1
        if v.op in ("vfield", "okval"):
            v = v.a[0]
        elif v.op == "call" and v.a[0] == "Ordering::reverse":
            rev = not rev
            v = v.a[1]
        elif v.op == "call" and v.a[0] in ("Option::unwrap_or", "Option::unwrap", "Option::unwrap_or_else", "Option::expect", "Option::unwrap_or_default", "Ordering::then", "Ordering::then_with"):
            v = v.a[1]
        elif v.op == "mapped" and len(v.a) > 3 and v.a[3] == "Option::map":
            v = v.a[1]
        else:
            break
    if v.op == "call" and v.a[0] in CMP:
        return v.a[1], v.a[2], rev
    return None


class Sort:
    def __init__(self, g, e):
        self.g, self.e, self.node = g, e, e.node
        self.coll = e.args[0]
        self.dir = None
        self.key = None
        by_key = e.name.endswith("key")
        rv = e.args[1] if len(e.args) > 1 else None
        if rv is None:
            return
        if by_key:
            self.dir = "asc"
            while rv.op == "agg" and str(rv.a[0]).endswith("Reverse"):
                rv = rv.a[3]
                self.dir = "desc" if self.dir == "asc" else "asc"
            self.key = self.norm(rv)
            return
        m = _cmp(rv)
        if m is None:
            return
        x, y, rev = m
        while x.op == "agg" and str(x.a[0]).endswith("Reverse") and y.op == "agg" and str(y.a[0]).endswith("Reverse"):
            x, y, rev = x.a[3], y.a[3], not rev
        a, b = _ab(x), _ab(y)
        if a == {"A"} and b == {"B"}:
            self.dir = "desc" if rev else "asc"
        elif a == {"B"} and b == {"A"}:
            self.dir = "asc" if rev else "desc"
        kx, ky = self.norm(x), self.norm(y)
        self.key = kx if kx is ky else None
        if kx is not ky:
            self.dir = None
            self.mismatch = (kx, ky)

    def norm(self, v):
        """v with the compared element replaced by the generic element of the collection"""
        g = self.g
        for x in sorted((x for x in q.subs(v) if x.op == "elem" and x.a[0] is self.coll), key=lambda x: -x.id):
            v = q.subst(g, v, x, g.elem(self.coll, "*"))
        return v

    def keys(self):
        """possible keys, with the elements of the collection traced to what was put in"""
        g = self.g
        if self.key is None:
            return []
        el = g.elem(self.coll, "*")
        if el.op == "elem" and self.coll.op in ("new", "phi") and any(x is el for x in q.subs(self.key)):
            cs = [v for k, v, e in q.contents(g, self.coll) if k == "item"]
            if cs:
                return [q.subst(g, self.key, el, v) for v in cs]
        return [self.key]


def sorts(g):
    return [Sort(g, e) for e in g.events("call") if e.name in SORTS and e.args and g.nodes[e.node.id].facts]


# ---------------------------------------------------------------- cutting
def limit_of(end, base):
    """n of min(len(base), n) or n"""
    if end.op == "call" and end.a[0] in ("Ord::min", "cmp::min"):
        ks = kids(end)
        o = [k for k in ks if loops.len_of(k) is None]
        return o[0] if len(o) == 1 else None
    return end


def strip(v, stop=()):
    """peels element-wise views: -> (base, [limits]) ; a limit is ("prefix"|"suffix"|"other", value)"""
    lim = []
    n = 0
    while n < 20 and not any(v is x for x in stop):
        n += 1
        if v.op == "mapped" and not (len(v.a) > 3 and v.a[3] in ("Iterator::flat_map", "Iterator::filter_map")):
            v = v.a[0]
        elif v.op == "idx" and v.a[1].op == "agg" and "Range" in str(v.a[1].a[0]):
            r = v.a[1]
            nm = r.a[0].split("::")[-1]
            fs = dict(zip(r.a[2], r.a[3:]))
            if nm == "RangeTo" or nm == "Range" and loops.ival(fs["start"]) == 0:
                lim.append(("prefix", limit_of(fs["end"], v.a[0])))
            elif nm == "RangeFull":
                pass
            else:
                lim.append(("other", r))
            v = v.a[0]
        elif v.op == "call" and v.a[0] == "Iterator::take":
            lim.append(("prefix", limit_of(v.a[2], v.a[1])))
            v = v.a[1]
        elif v.op == "call" and v.a[0] in ("Iterator::skip", "Iterator::step_by"):
            lim.append(("other", v))
            v = v.a[1]
        elif v.op == "call" and v.a[0] == "Iterator::rev":
            lim.append(("rev", v))
            v = v.a[1]
        elif v.op == "call" and v.a[0] in ("Iterator::enumerate", "Iterator::cloned", "Iterator::copied"):
            v = v.a[1]
        else:
            break
    return v, lim


def cuts(g, bases):
    """[(event, kind, limit)]: where a collection among `bases` (values) is shortened to its first n elements"""
    ids = {b.id for b in bases}
    out = []
    for e in g.events("call"):
        if not e.args or e.args[0] is None or e.args[0].id not in ids:
            continue
        if e.name == "Vec::truncate":
            out.append((e, "prefix", limit_of(e.args[1], e.args[0])))
        elif e.name in ("Vec::drain", "Vec::split_off"):
            a = e.args[1]
            if a.op == "agg":
                fs = dict(zip(a.a[2], a.a[3:]))
                if "start" in fs and "end" not in fs:
                    out.append((e, "prefix", limit_of(fs["start"], e.args[0])))
                else:
                    out.append((e, "other", a))
            else:
                out.append((e, "prefix", limit_of(a, e.args[0])))
        elif e.name == "Vec::pop":
            for d in g.facts_at(e.node):
                for v, p in d:
                    if v.op == "bin" and v.a[0] == "Lt" and p and loops.len_of(v.a[2]) is e.args[0]:
                        out.append((e, "prefix", v.a[1]))
    return out


# ---------------------------------------------------------------- comparisons
def uncast(v):
    while v.op == "cast" or v.op == "call" and v.a[0] in ("Into::into", "From::from") and len(kids(v)) == 1:
        v = kids(v)[0]
    return v


def less(v, p):
    """(lo, hi, strict): the fact says lo < hi (strict) or lo <= hi"""
    if v.op == "bin" and v.a[0] in ("Lt", "Le", "Gt", "Ge"):
        op, a, b = v.a[0], v.a[1], v.a[2]
        if op in ("Gt", "Ge"):
            op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
        if not p:
            a, b, op = b, a, {"Lt": "Le", "Le": "Lt"}[op]
        return a, b, op == "Lt"
    return None


# ---------------------------------------------------------------- once per element
FULL = ("Iterator::for_each", "Iterator::map", "Iterator::flat_map", "Iterator::fold")


def returns(g, x):
    """a return of the analysed function can be reached from node x"""
    r = {n.id for n in g.root.retnodes}
    return x in r or adt.skips(g, x, None, None, r)


def each(g, es, isA, excuse=lambda d: False, early=lambda d: False, panics=True, cut=None):
    """the events es together happen for every element of a collection accepted by isA (or of its part, if cut accepts the limits).
    -> [(construct node id, [reasons])] one per loop or iterator closure over such a collection that contains one of es"""
    out = []
    for l in loops.loops(g):
        fs = None
        if not any(isA(x) for x in l.sources()):
            fs = [f for b, f in l.filtered() if isA(b)]
            if not fs and cut:
                fs = [[] for nx in l.nexts for b, lim in [strip(nx.args[0])] if lim and isA(b) and all(cut(k, x) for k, x in lim)]
            if not fs:
                continue
            fs = fs[0]
        ids = {e.node.id for e in es if e.node.id in l.body}
        if not ids:
            continue
        rs = left_out(g, fs, excuse)
        for u, x, ds in avoid(g, l.head, ids, {l.head}, l.body):
            for d in ds:
                if not l.exhausted(d) and not known(g, d, excuse):
                    rs.append("an element may be skipped [%s]" % q.fmt(d))
        for u, x, d in l.early():
            if g.nodes[x].facts and not known(g, d, early) and (panics or returns(g, x)):
                rs.append("it may stop before the last element [%s]" % q.fmt(d))
        out.append((l.head, rs))
    by = adt._closures(g)
    for e in es:
        i = e.inst
        while i is not None:
            if i.id in by:
                coll, ev = by[i.id]
                w, fs = loops.unfilter(coll) if coll is not None else (None, [])
                if w is not None and isA(w) and not any(o[0] == ev.node.id for o in out):
                    rs = ([] if ev.name in FULL else ["it may stop early (%s)" % ev.name]) + left_out(g, fs, excuse)
                    tgt = {z.node.id for z in es}
                    for u, x, ds in [] if i.meta[0].id in tgt else avoid(g, i.meta[0].id, tgt, {r.id for r in i.retnodes}):
                        for d in ds:
                            if not known(g, d, excuse):
                                rs.append("an element may be skipped [%s]" % q.fmt(d))
                    out.append((ev.node.id, rs))
            i = i.parent
    return out


def left_out(g, fs, excuse):
    """elements a filter drops must be excused"""
    rs = []
    for r in fs or ():
        for d in truths(g, r, False):
            if not known(g, d, excuse):
                rs.append("an element may be filtered out [%s]" % q.fmt(d))
    return rs


class At:
    """a node as an event"""
    def __init__(self, g, nd):
        self.node = g.nodes[nd]
        self.inst = self.node.inst


def every(g, es, isAs, excuse=lambda d: False, early=lambda d: False):
    """es happen for every combination of elements of the collections accepted by the isAs, nested in any order.
    -> [(outermost construct node id, [reasons])]; empty if there are no such loops"""
    best = None
    for o in itertools.permutations(isAs):
        cur, rs = es, []
        for isA in o:
            r = each(g, cur, isA, excuse, early)
            if not r:
                rs = None
                break
            rs += [x for nd, y in r for x in y]
            cur = [At(g, nd) for nd, y in r]
        if rs is not None and (best is None or len(rs) < len(best[1])):
            best = ([e.node.id for e in cur], rs)
    return [(nd, best[1]) for nd in best[0]] if best else []


# ---------------------------------------------------------------- what a variable is set to
def settings(g, v, stop=()):
    """[(node id, value)]: the values that reach v through joins (fields of joins are followed), and the edge source on which each is set;
    joins in stop are values themselves"""
    path = []
    while v.op == "field":
        path.append(v.a[-1])
        v = v.a[0]
    path.reverse()
    out, seen, st = [], set(), [v]
    while st:
        p = st.pop()
        if p.id in seen:
            continue
        seen.add(p.id)
        for pr, w in g.phis.get(p.id, []):
            if w.op == "phi" and not any(w is x for x in stop):
                st.append(w)
                continue
            for f in path:
                w = g.field(w, f)
            out.append((pr, w))
    return out


def feasible(g, u, x):
    """nodes that can be reached over the edge u -> x, with boolean flags having the values set on the way"""
    def walk(prune):
        seen, st = {x}, [x]
        while st:
            n = st.pop()
            for s, label in g.nodes[n].succ:
                if s in seen or not g.nodes[s].facts:
                    continue
                if prune:
                    ef = g.edge_facts(g.nodes[n], label)
                    if ef is None or any(prune(v, p) for v, p in ef):
                        continue
                seen.add(s)
                st.append(s)
        return seen
    plain = walk(None) | {u}

    def no(v, p):
        if v.op == "un" and v.a[0] == "Not":
            return no(v.a[1], not p)
        if v.op != "phi" or not g.is_bool(v):
            return False
        ws = [w for pr, w in settings(g, v) if pr in plain]
        return bool(ws) and all(w.op == "const" and isinstance(w.a[1], bool) and w.a[1] is not p for w in ws)
    return walk(no)
