"""Query helpers shared by the checks."""
import vg
from vg import V, show, kids, subvalues

PUSH = {"Vec::push", "VecDeque::push_back", "VecDeque::push_front"}
EXTEND = {"Extend::extend", "Vec::extend", "Vec::append", "Vec::extend_from_slice"}
# containers derived from containers with the same (sub-)contents
VIEW = {"Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::step_by", "Vec::drain", "slice::iter", "Iterator::flatten", "Vec::split_off"}


def subs(v):
    return list(subvalues(v).values())


def subst(g, v, old, new):
    if v is old:
        return new
    if old.id not in subvalues(v):
        return v
    a = [subst(g, x, old, new) if isinstance(x, V) else x for x in v.a]
    return g.rebuild(v, a)


def _fs(g, ds):
    return [[(g.vals[i], q) for i, q in d] for d in ds]


def resolve(g, v, d, depth=8, limit=256):
    """alternatives of v with its phis replaced: by the binding known in disjunct d, otherwise by every
    incoming value together with the facts of that incoming edge. -> [(value, facts)]"""
    todo = [(v, d, depth)]
    out = []
    while todo:
        v, d, k = todo.pop()
        ph = [x for x in subs(v) if x.op == "phi" and x.id in g.phis]
        if not ph or k == 0:
            uo = [x for x in subs(v) if x.op == "call" and x.a[0] in ("Option::unwrap_or", "Option::unwrap_or_else")] if k else []
            if not uo:
                out.append((v, d))
                continue
            x = uo[0]
            some = g.pool.mk("isv", x.a[1], "Some")
            for w, p in ((g.vfield(x.a[1], "Some", "0"), True), (x.a[2], False)):
                if compatible(d, [(some, p)]):
                    todo.append((subst(g, v, x, w), merge(d, [(some, p)]), k - 1))
            continue
        p = max(ph, key=lambda x: x.id)
        bound = [f.a[1] for f, pol in d if f.op == "bind" and f.a[0] is p]
        ws = []
        if bound:
            # add what was known on the edge(s) that selected the bound value
            for pred, w in g.phis.get(p.id, []):
                if w is bound[0]:
                    for dd in _fs(g, g.OUT.get(pred) or []):
                        if compatible(d, dd):
                            ws.append((w, merge(d, dd)))
            if not ws or len(ws) > 24:
                ws = [(bound[0], d)]
        else:
            for pred, w in g.phis.get(p.id, []):
                for dd in _fs(g, g.OUT.get(pred) or []):
                    if compatible(d, dd):
                        ws.append((w, merge(d, dd)))
        for w, dd in ws:
            nv = subst(g, v, p, w)
            if nv is not v and not (w.op == "agg" and w.a[1] and any(x.op == "vfield" and x.a[0] is p and x.a[1] != w.a[1] for x in subs(v))):
                todo.append((nv, dd, k - 1))
        if len(out) + len(todo) > limit:
            return out + [(a, b) for a, b, _ in todo]
    return out


def unarray(g, v, d, limit=64):
    """alternatives of (v, d) in which an element of a literal array is each of its items"""
    todo, out = [(v, d)], []
    while todo:
        v, d = todo.pop()
        es = [x for w in [v] + [f for f, _ in d] for x in subs(w) if x.op == "elem" and x.a[0].op == "agg" and x.a[0].a[0] == "array" and len(x.a[0].a) > 3]
        if not es or len(out) + len(todo) > limit:
            out.append((v, d))
            continue
        for w in es[0].a[0].a[3:]:
            nd = []
            for f, p in d:
                nf = subst(g, f, es[0], w)
                if nf is f:
                    nd.append((f, p))
                    continue
                r = g.lit(nf, p)
                if r is None:
                    nd = None
                    break
                nd += r
            if nd is not None:
                todo.append((subst(g, v, es[0], w), nd))
    return out


def compatible(a, b):
    m = {v.id: p for v, p in a if v.op != "bind"}
    return all(m.get(v.id, p) == p for v, p in b if v.op != "bind")


def merge(a, b):
    s = {(v.id, p): (v, p) for v, p in a}
    for v, p in b:
        s.setdefault((v.id, p), (v, p))
    return list(s.values())


def alts(g, node, v):
    """(value, facts) alternatives of v at node"""
    seen = {}
    for d in g.facts_at(node):
        for x, dd in resolve(g, v, d):
            k = (x.id, frozenset((f.id, p) for f, p in dd))
            seen[k] = (x, dd)
    return list(seen.values())


def fact(d, v, pol=True):
    return any(x is v and p == pol for x, p in d)


def isv(d, v, variant):
    """True/False/None: what the facts d say about 'v is variant'"""
    if v.op == "agg" and v.a[1]:
        return v.a[1] == variant
    for x, p in d:
        if x.op == "isv" and x.a[0] is v:
            if x.a[1] == variant:
                return p
            if p:
                return False
    return None


def variant_of(d, v):
    """set of variants of enum value v possible under d, as (known, excluded)"""
    if v.op == "agg" and v.a[1]:
        return v.a[1], set()
    exc = set()
    for x, p in d:
        if x.op == "isv" and x.a[0] is v:
            if p:
                return x.a[1], exc
            exc.add(x.a[1])
    return None, exc


def call_facts(d, name):
    """[(args, polarity)] of the boolean calls named `name` decided in d"""
    return [([a for a in x.a[1:] if isinstance(a, V)], p) for x, p in d if x.op == "call" and x.a[0] == name]


def fmt(d, n=12):
    s = [("" if p else "not ") + show(v, 4) for v, p in d if v.op != "bind"]
    return "; ".join(sorted(s)[:n])


# ---------------------------------------------------------------- containers
def contents(g, c, depth=6, seen=None, d=None):
    """everything that may have been put into container c: [(kind, value, event)],
    kind 'item' for single elements, 'all' for the elements of `value`"""
    if seen is None:
        seen = set()
    if c.id in seen or depth == 0:
        return []
    seen.add(c.id)
    out = []
    if c.op == "phi":
        for _, w in g.phis.get(c.id, []):
            out += contents(g, w, depth, seen)
        return out
    if c.op == "agg" and c.a[0] == "array":
        out = [("item", x, None) for x in c.a[3:]]
        for e in g.events("call"):
            if not e.args or e.args[0] is not c:
                continue
            if e.name in PUSH and len(e.args) > 1:
                out.append(("item", e.args[1], e))
            elif e.name in EXTEND and len(e.args) > 1:
                for k, v, ev in contents(g, e.args[1], depth - 1, seen):
                    out.append((k, v, ev or e))
        return out
    if c.op == "agg" and c.a[1] in ("Some", "Ok"):
        return contents(g, c.a[3], depth, seen)
    if c.op == "okval" and c.a[0].op == "call" and c.a[0].a[0] == "JoinHandle::join":
        t = c.a[0].a[1]
        if t.op == "call" and t.a[0] in ("functions::spawn", "thread::spawn") and len(t.a) > 2:
            return contents(g, t.a[2], depth - 1, seen)
    if c.op == "mapped":
        if len(c.a) > 3 and c.a[3] == "Iterator::flat_map":
            return contents(g, c.a[1], depth - 1, seen)
        return [("item", c.a[1], None)]
    if c.op == "filtered":
        return [("item", c.a[1], None)]
    if c.op == "call" and c.a[0] == "Iterator::chain" or c.op == "call" and c.a[0] == "slice::concat":
        for x in kids(c):
            out += contents(g, x, depth - 1, seen)
        return out
    if c.op == "call" and c.a[0] in VIEW:
        return contents(g, c.a[1], depth - 1, seen)
    if c.op in ("new", "upd", "call", "unk") or c.op in ("field", "vfield"):
        hit = False
        for e in g.events("call"):
            if not e.args or e.args[0] is not c:
                continue
            if e.name in PUSH and len(e.args) > 1:
                out.append(("item", e.args[1], e))
                hit = True
            elif e.name == "Vec::insert" and len(e.args) > 2:
                out.append(("item", e.args[2], e))
                hit = True
            elif e.name in EXTEND and len(e.args) > 1:
                hit = True
                for k, v, ev in contents(g, e.args[1], depth - 1, seen):
                    out.append((k, v, ev or e))
        if c.op == "new" or hit:
            if c.op != "new":
                out.append(("all", c, None))
            return out
    return [("all", c, None)]


def writes(g, fieldname=None):
    """[(target path, value, event)] of all stores, also those through locals/guards"""
    out = []
    for e in g.events():
        if e.kind == "write":
            t = e.args[0]
        elif e.kind == "lwrite" and isinstance(e.extra, V):
            t = e.extra
        else:
            continue
        if fieldname is None or t.op in ("field", "vfield") and t.a[-1] == fieldname:
            out.append((t, e.val, e))
    return out


def iterating(g, e, d):
    """ids of the collections one of whose elements exists when event e is reached under facts d"""
    out = set()
    for v, p in d:
        if p and v.op == "isv" and v.a[1] == "Some" and v.a[0].op in ("next", "found"):
            out.add(v.a[0].a[0].id)
    by = g.__dict__.get("_clocoll")
    if by is None:
        by = {}
        for n in g.nodes:
            for ev in n.events:
                if ev.kind == "call" and isinstance(ev.extra, type(g.root)) and ev.args and ev.args[0] is not None:
                    by[ev.extra.id] = ev.args[0]
        g._clocoll = by
    i = e.inst
    while i is not None:
        if i.id in by:
            out.add(by[i.id].id)
        i = i.parent
    return out


def empties(g, d):
    """ids of the containers known to be empty under d"""
    from loops import ival, len_of
    out = set()
    for v, p in d:
        if v.op == "bin":
            a, b = v.a[1], v.a[2]
            if v.a[0] == "Lt" and ival(a) == 0 and not p and len_of(b) is not None:
                out.add(len_of(b).id)
            if v.a[0] == "Lt" and ival(b) == 1 and p and len_of(a) is not None:
                out.add(len_of(a).id)
            if v.a[0] == "Le" and ival(a) == 1 and not p and len_of(b) is not None:
                out.add(len_of(b).id)
            if v.a[0] == "Eq" and p:
                for s, t in ((a, b), (b, a)):
                    if ival(t) == 0 and len_of(s) is not None:
                        out.add(len_of(s).id)
    return out


def phichain(g, v, seen=None):
    """phis through which values flow into v"""
    seen = {} if seen is None else seen
    if v.op == "phi" and v.id not in seen:
        seen[v.id] = v
        for _, w in g.phis.get(v.id, []):
            phichain(g, w, seen)
    return list(seen.values())


def returned(g):
    return [e.val for e in g.events("return") if e.val is not None]


def contents_at_return(g):
    out = []
    for v in returned(g):
        out += contents(g, v)
    return out


def reaching(g):
    """ids of the values that arrive in the returned collection: directly, out of an option (match, extend, flatten) or
    by way of another collection"""
    out = set()
    todo = [v for _, v, _ in contents_at_return(g)]
    while todo:
        v = todo.pop()
        for x in g.leaves(v):
            if x.id in out:
                continue
            out.add(x.id)
            if x.op == "agg" and x.a[1] == "Some" and len(x.a) > 3:
                todo.append(x.a[3])
            elif x.op == "optmap":
                todo.append(x.a[1])
            elif x.op == "optthen":
                todo.append(x.a[1])
            elif x.op == "vfield" and x.a[1] == "Some":
                todo.append(x.a[0])
            elif x.op == "call" and x.a[0] == "Iterator::flatten":
                todo += [w for _, w, _ in contents(g, x.a[1])]
            elif x.op == "elem" and x.a[0].op != "filtered":
                c = x.a[0]
                if c.op == "call" and c.a[0] == "Iterator::flatten":
                    todo.append(c)
                else:
                    todo += [w for _, w, _ in contents(g, c)]
            else:  # a list
                ws = [w for _, w, _ in contents(g, x)]
                if ws != [x]:
                    todo += ws
    return out


def leaves(g, v):
    return g.leaves(v)


def base_param(v):
    """index of the parameter a path value is rooted in, else None"""
    while True:
        if v.op == "param":
            return v.a[0]
        if v.op in ("field", "vfield", "idx", "cidx", "elem", "okval"):
            v = v.a[0]
            continue
        return None


def params_in(v):
    return {x.a[0] for x in subs(v) if x.op == "param"}


def is_const(v, *vals):
    return v.op == "const" and v.a[1] in vals


# ---------------------------------------------------------------- call graph
def callgraph(c):
    """path -> set of (caller path, kind) over direct calls, function values and closure creation"""
    r = c.__dict__.get("_callers")
    if r is not None:
        return r
    from mir import callee
    r = {}

    def walk(o, f):
        if isinstance(o, dict):
            if o.get("ak") == "closure" and o.get("def"):
                r.setdefault(o["def"], set()).add((f.path, "closure"))
            fn = o.get("fn")
            if isinstance(fn, dict):
                p = fn.get("res") or fn.get("path")
                if p:
                    r.setdefault(p, set()).add((f.path, "ref"))
            for x in o.values():
                walk(x, f)
        elif isinstance(o, list):
            for x in o:
                walk(x, f)
    for f in c.fns.values():
        for b in f.blocks:
            if b.get("c"):
                continue
            for s in b["s"]:
                walk(s, f)
            walk(b["t"], f)
            if b["t"]["k"] == "call":
                p = callee(b["t"])
                if p:
                    r.setdefault(p, set()).add((f.path, "call"))
    c._callers = r
    return r


def callers(c, path):
    return sorted({p for p, _ in callgraph(c).get(path, ()) if p != path and p in c.fns})


def direct_sites(c, names):
    out = set()
    for n in names:
        out |= set(callers(c, n))
    return sorted(out)


CLIMB_NODES = 8000


def prove_sites(rep, rule, names, atoms, pred, climb=3, skip=(), kind="call", spawn=True):
    """every event `names` in the functions that contain it satisfies pred(g, e) -> None | message,
    with the containing function as root of the analysis or, failing that, in every caller of it"""
    n = 0
    for fn in direct_sites(rep.c, names):
        if fn in skip or fn in names:
            continue
        n += _prove(rep, rule, fn, fn, names, atoms, pred, climb, ())
    return n


def _prove(rep, rule, fn, root, names, atoms, pred, climb, trail):
    kw = {"maxnodes": CLIMB_NODES} if trail else {}
    try:
        g = rep.graph(root, atoms=sorted(set(atoms) - set(trail) - {fn}), spawn_inline=True, **kw)
    except vg.TooLarge:
        rep.bad(rule, "%s:caller" % fn, "the caller %s is too large to search for the guard" % root)
        return 0
    evs = [e for e in g.events("call") if e.name in names and e.inst.fn.path == fn]
    bad = []
    for e in evs:
        m = pred(g, e)
        if m is None:
            continue
        bad.append((e, m))
    if bad:
        up = [p for p in callers(rep.c, root) if p not in trail and p != root]
        if climb > 0 and up and not any(e.kind == "x" for e, _ in bad):
            # the guard may have been left in the callers
            k = 0
            sub = Sub(rep)
            for p in up:
                k += _prove(sub, rule, fn, p, names, atoms, pred, climb - 1, trail + (root,))
                if sub.viol:
                    break
            if not sub.viol and k:
                sub.commit()
                return len(evs)
        for e, m in bad:
            rep.bad(rule, "%s:%s" % (e.inst.fn.path, m.split(" [")[0][:120]), "%s: %s" % (e.where, m))
    for e in evs:
        if not any(e is b for b, _ in bad):
            rep.ok(rule, e.where)
    return len(evs)


class Sub:
    """obligations that count only if committed"""

    def __init__(self, rep):
        self.rep = rep
        self.c = rep.c
        self.viol = []
        self.oks = []

    def ok(self, r, i):
        self.oks.append((r, i))

    def bad(self, r, k, t):
        self.viol.append((k, t))

    def check(self, cond, r, k, t=""):
        if cond:
            self.ok(r, k)
        else:
            self.bad(r, k, t() if callable(t) else t)
        return cond

    def graph(self, *a, **k):
        return self.rep.graph(*a, **k)

    def commit(self):
        for r, i in self.oks:
            self.rep.ok(r, i)


def reach(c, start):
    """functions and closures reachable from `start` over the call graph (incl. itself)"""
    fw = c.__dict__.get("_callees")
    if fw is None:
        fw = {}
        for p, cs in callgraph(c).items():
            for f, _ in cs:
                fw.setdefault(f, set()).add(p)
        c._callees = fw
    seen, st = {start}, [start]
    while st:
        for x in fw.get(st.pop(), ()):
            if x in c.fns and x not in seen:
                seen.add(x)
                st.append(x)
    return seen


def calls_of(c, p):
    reach(c, p)
    return c._callees.get(p, set())
