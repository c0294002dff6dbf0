"""Analysis of recursive functions over an enum by specialisation: for each variant, the value graph of the function with that
parameter known to be of the variant (its fields symbolic). Branches on the variant fold away, so or-patterns, if-let chains,
match nesting and helper functions make no difference; what remains says how each field of the variant is used."""
import loops
import q
from vg import V, show, kids

TERM = "Term::Term"


def kind(ty):
    """component kinds: 'term' (sub-term), 'list' (vector of sub-terms), 'data' (anything else)"""
    t = ty.replace("alloc::boxed::Box<", "").replace("alloc::vec::Vec<", "[").replace(">", "")
    if t == TERM:
        return "term"
    if t == "[" + TERM:
        return "list"
    return "data"


def comps(c, variant, adt=TERM):
    return [(nm, kind(ty)) for nm, ty in c.variant_fields(adt, variant)]


def agg(g, base, variant, adt=TERM):
    fs = [nm for nm, _ in g.crate.variant_fields(adt, variant)]
    return g.pool.mk("agg", adt, variant, tuple(fs), *[raw(g, base, variant, f) for f in fs])


def raw(g, base, variant, f):
    return g.vfield(base, variant, f)


def param(g, i):
    return g.pool.mk("param", i, g.root.fn.locals[i].get("n"))


def spec(rep, path, variants, atoms=(), **kw):
    """graph of `path` with parameter i of variant variants[i]; -> (graph, {i: component values})"""
    fn = rep.c.fns[path] if isinstance(path, str) else path
    args = [None] * fn.argc
    for i, var in variants.items():
        args[i - 1] = (lambda i, var: lambda g: agg(g, param(g, i), var))(i, var)
    g = rep.graph(path, atoms, args=args, **kw)
    return g, {i: [(nm, k, raw(g, param(g, i), var, nm)) for nm, k in comps(rep.c, var)] for i, var in variants.items()}


# ---------------------------------------------------------------- shape of loops over a list
def skips(g, start, body, target, goals):
    """some path from `start` (within body, None = everywhere) reaches one of `goals` without passing `target`"""
    if start == target:
        return False
    seen, st = {start}, [start]
    while st:
        u = st.pop()
        for s, _ in g.nodes[u].succ:
            if s in goals:
                return True
            if s == target or s in seen or (body is not None and s not in body) or not g.nodes[s].facts:
                continue
            seen.add(s)
            st.append(s)
    return False


def always(g, node, inst=None):
    """every path from the entry (of instance inst) to its return passes node"""
    if inst is None or inst is g.root:
        return not skips(g, g.root.meta[0].id, None, node.id, {r.id for r in g.root.retnodes if g.nodes[r.id].facts})
    return not skips(g, inst.meta[0].id, None, node.id, {r.id for r in inst.retnodes})


def ordered(v):
    return not any(x.op == "call" and x.a[0] == "Iterator::rev" for x in q.subs(v))


def _closures(g):
    by = g.__dict__.get("_clo_by_inst")
    if by is None:
        by = {}
        for n in g.nodes:
            for ev in n.events:
                if ev.kind == "call" and isinstance(ev.extra, type(g.root)) and ev.args:
                    by[ev.extra.id] = (ev.args[0], ev)
        g._clo_by_inst = by
    return by


def covers(g, e, A, order=False, start=None):
    """event e is executed once for every element of the collection A, whenever the function runs (from node `start`) to its end.
    -> None if so, else the reason"""
    def always_(node):
        if start is None:
            return always(g, node)
        return not skips(g, start, None, node.id, {r.id for r in g.root.retnodes if g.nodes[r.id].facts})
    i = e.inst
    by = _closures(g)
    while i is not None:
        if i.id in by:
            coll, ev = by[i.id]
            if coll is None or loops.whole(coll) is not A:
                return "it runs over %s" % show(coll)
            if order and not ordered(coll):
                return "the order of the elements is reversed"
            if ev.name not in ("Iterator::for_each", "Iterator::map", "Iterator::flat_map", "Iterator::fold"):
                return "it may stop early (%s)" % ev.name
            if not always(g, e.node, i):
                return "some elements are skipped"
            if not always_(ev.node):
                return "some paths skip it altogether"
            return None
        i = i.parent
    cand = [l for l in loops.loops(g) if e.node.id in l.body and not any(e.node.id in b for b in l.inner)]
    if not cand:
        return "it is not repeated per element"
    l = cand[0]
    if A not in l.sources():
        return "the loop does not run over all of %s" % show(A)
    if order and any(not ordered(x.args[0]) for x in l.nexts):
        return "the order of the elements is reversed"
    if skips(g, l.head, l.body, e.node.id, {l.head}):
        return "some elements are skipped"
    if l.early():
        return "the loop may stop early"
    if not always_(g.nodes[l.head]):
        return "some paths skip the loop"
    return None


READERS = {"Vec::len", "Vec::is_empty", "slice::len", "slice::is_empty", "Vec::reserve", "Vec::with_capacity", "slice::iter", "slice::get"}


def list_map(g, vec, A):
    """vec holds exactly f(x) for the elements x of A in their order. -> (f(x), None) or (None, reason)"""
    if vec is A:
        return "same", None
    if vec.op == "mapped" and not (len(vec.a) > 3 and vec.a[3] in ("Iterator::flat_map", "Iterator::filter_map")):
        if loops.whole(vec.a[0]) is not A or not ordered(vec.a[0]):
            return None, "it is built from %s" % show(vec.a[0])
        return vec.a[1], None
    if vec.op != "new":
        return None, "it is %s" % show(vec)
    touch = [e for e in g.events("call") if e.args and e.args[0] is vec and e.name not in READERS]
    push = [e for e in touch if e.name in q.PUSH]
    ext = [e for e in touch if e.name in q.EXTEND]
    if len(touch) == 1 and len(ext) == 1 and always(g, ext[0].node):
        return list_map(g, ext[0].args[1], A)
    if len(touch) != 1 or len(push) != 1:
        return None, "it is also changed by %s" % ", ".join(sorted({e.name for e in touch if e not in push})) if push else "nothing is put into it"
    at = vec.a[-1][1] if isinstance(vec.a[-1], tuple) and vec.a[-1][0] == "@" else None
    r = covers(g, push[0], A, order=True, start=at if isinstance(at, int) else None)
    if r:
        return None, r
    return push[0].args[1], None


def is_elem(x, A):
    return loops.element_of(x) is A


# ---------------------------------------------------------------- sums
def linear(g, v, d=None, depth=12, stop=()):
    """additive normal form {key: coefficient}: 1 for constants, values, ("over", A, value) for a sum over all elements of A"""
    out = {}

    def add(k, n):
        out[k] = out.get(k, 0) + n

    def put(m, n=1):
        for k, c in m.items():
            add(k, c * n)
    if depth == 0 or v in stop:
        return {v: 1}
    c = loops.ival(v)
    if c is not None:
        return {1: c} if c else {}
    if v.op == "bin" and v.a[0] in ("Add", "Sub"):
        put(linear(g, v.a[1], d, depth - 1, stop))
        put(linear(g, v.a[2], d, depth - 1, stop), 1 if v.a[0] == "Add" else -1)
        return out
    if v.op == "call" and v.a[0] == "Iterator::sum":
        m = v.a[1]
        if m.op == "mapped" and loops.whole(m.a[0]) is not None:
            for k, n in linear(g, m.a[1], d, depth - 1, stop).items():
                add(("over", loops.whole(m.a[0]), k), n)
            return out
    if v.op == "call" and v.a[0] == "Iterator::fold" and loops.whole(v.a[1]) is not None:
        s = linear(g, v.a[2], d, depth - 1, stop)
        acc = [k for k in s if isinstance(k, V) and k.op == "unk" and k.a[0] == "acc"]
        if len(acc) == 1 and s[acc[0]] == 1:
            s.pop(acc[0])
            put(linear(g, v.a[3], d, depth - 1, stop))
            for k, n in s.items():
                add(("over", loops.whole(v.a[1]), k), n)
            return {k: n for k, n in out.items() if n}
    if v.op == "phi" and v.id in g.phis and v.a[-1][1] in g.loops:
        h = v.a[-1][1]
        body = g.loops[h]
        init = {w.id: w for p, w in g.phis[v.id] if p not in body}
        step = {w.id: w for p, w in g.phis[v.id] if p in body}
        ls = [l for l in loops.loops(g) if l.head == h]
        if len(init) == 1 and len(step) == 1 and ls and not ls[0].early() and ls[0].sources():
            s = linear(g, list(step.values())[0], d, depth - 1, stop + (v,))
            if s.get(v) == 1:
                s.pop(v)
                A = ls[0].sources()[0]
                put(linear(g, list(init.values())[0], d, depth - 1, stop))
                for k, n in s.items():
                    add(("over", A, k), n)
                return {k: n for k, n in out.items() if n}
    if v.op == "phi" and v.id in g.phis:
        ws = {w.id: w for _, w in g.phis[v.id]}
        b = [f.a[1] for f, p in (d or []) if f.op == "bind" and f.a[0] is v]
        if b or len(ws) == 1:
            return linear(g, b[0] if b else list(ws.values())[0], d, depth - 1, stop)
    return {v: 1}


# ---------------------------------------------------------------- conjunctions of component comparisons
def cases(g, e):
    """(truth, facts) of a boolean return event"""
    for v, d in q.alts(g, e.node, e.val):
        pol = True
        while v.op == "un" and v.a[0] == "Not":
            v, pol = v.a[1], not pol
        out = [(bool(v.a[1]) == pol, d)] if v.op == "const" else [(True, d + [(v, pol)]), (False, d + [(v, not pol)])]
        for t, dd in out:
            s = {}
            if all(s.setdefault(x.id, p) == p for x, p in dd):
                yield t, dd


DIRECTED = set()     # comparison functions whose arguments may not be exchanged


def same_fact(d, x, y, eqs):
    """what d says about x == y (as decided by one of the comparison functions eqs, or ==)"""
    for v, p in d:
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and {v.a[1].id, v.a[2].id} == {x.id, y.id}:
            return p == (v.a[0] == "Eq")
        if v.op == "call" and v.a[0] in eqs:
            ks = kids(v)
            if len(ks) >= 2 and (ks[0] is x and ks[1] is y if v.a[0] in DIRECTED else {ks[0].id, ks[1].id} == {x.id, y.id}):
                return p
    return None


def _pair(v, A, B, eqs):
    """v compares an element of A with the element of B at the same position"""
    if v.op == "bin" and v.a[0] == "Eq" or v.op == "call" and v.a[0] in eqs:
        ks = kids(v)[:2]
        for x, y in (ks, ks[::-1])[:1 if v.op == "call" and v.a[0] in DIRECTED else 2]:
            if is_elem(x, A) and is_elem(y, B):
                if x.op == "idx" and y.op == "idx":
                    return x.a[1] is y.a[1]
                return True
    return False


def list_fact(g, d, A, B, eqs):
    """True: the lists are known equal element by element; False: known different; None: unknown"""
    s = same_fact(d, A, B, eqs)
    if s is not None:
        return s
    ln = None
    for v, p in d:
        if v.op == "bin" and v.a[0] == "Eq" and {id(loops.len_of(v.a[1])), id(loops.len_of(v.a[2]))} == {id(A), id(B)}:
            ln = p
    if ln is False:
        return False
    for v, p in d:
        if _pair(v, A, B, eqs) and not p:
            return False
        if v.op in ("all", "any"):
            coll, r = v.a[0], v.a[2]
            neg = v.op == "any"
            if neg:
                r = r.a[1] if r.op == "un" and r.a[0] == "Not" else None
            if r is None or not _pair(r, A, B, eqs) or not _pairs_coll(coll, A, B):
                continue
            if p != neg:
                return True if ln else None
            return False
    if ln is not True:
        return None
    for l in loops.loops(g):
        if not l.exhausted(d) or not ({A, B} & set(l.sources())):
            continue
        if all(any(_pair(v, A, B, eqs) and p for v, p in dd) for _, dd in l.latches()):
            return True
    return None


def _pairs_coll(coll, A, B):
    if coll.op == "call" and coll.a[0] == "Iterator::zip":
        return {x.id for x in (loops.whole(coll.a[1]), loops.whole(coll.a[2])) if x is not None} == {A.id, B.id} and ordered(coll)
    if coll.op == "agg" and "Range" in str(coll.a[0]):
        fs = dict(zip(coll.a[2], coll.a[3:]))
        return loops.ival(fs["start"]) == 0 and loops.len_of(fs.get("end", coll)) in (A, B)
    return False


def comp_fact(g, d, k, x, y, eqs):
    return list_fact(g, d, x, y, eqs) if k == "list" else same_fact(d, x, y, eqs)


# ---------------------------------------------------------------- recursive functions
def recursive(c, entry, ty="&" + TERM):
    """the functions reachable from entry which take a term and can call themselves"""
    out = []
    for f in sorted(q.reach(c, entry)):
        fn = c.fns[f]
        if fn.kind == "Closure" or not any(l["t"] in (ty, TERM, "&alloc::boxed::Box<%s>" % TERM) for l in fn.locals[1:fn.argc + 1]):
            continue
        if any(f in q.reach(c, x) for x in q.calls_of(c, f) if x in c.fns) and not f.startswith("<"):
            out.append(f)
    return out


def visits(g, F, A, kind, others=()):
    """the recursive call happens for the component: None if so for every element, else the reason"""
    why = "there is no such call"
    for e in g.events("call"):
        if e.name != F or not e.args:
            continue
        x = e.args[0]
        if kind == "term" and x is A:
            if always(g, e.node):
                return None
            why = "some paths skip it"
        elif kind == "list" and is_elem(x, A):
            r = covers(g, e, A)
            if r is None:
                return None
            why = r
    return why


def rebuilt(rep, rule, F, fn, variant, g, cs, v, e, extra):
    """v is the variant with every component replaced by the result of F on it"""
    if not rep.check(v.op == "agg" and v.a[1] == variant, rule + "-kind", "%s:%s" % (fn, variant), "%s: a %s term becomes %s" % (e.where, variant, show(v))):
        return
    for (nm, k, x), w in zip(cs, v.a[3:]):
        why = "it is %s" % show(w)
        if k == "data":
            okk = w is x
        elif k == "term":
            okk = _rec(w, F, extra) is x
        else:
            m, why = list_map(g, w, x)
            okk = m not in (None, "same") and _rec(m, F, extra) is not None and is_elem(_rec(m, F, extra), x)
            if not okk and m is not None:
                why = "its elements are %s" % (show(m) if m != "same" else "left as they are")
        rep.check(okk, rule + "-component", "%s:%s.%s" % (fn, variant, nm),
                  "%s: component %s of a %s term is not replaced by the result for exactly that component: %s" % (e.where, nm, variant, why))


def _rec(w, F, extra):
    if w.op == "call" and w.a[0] == F:
        ks = kids(w)
        if ks and [k.id for k in ks[1:]] == [x.id for x in extra]:
            return ks[0]
    return None


def avoid_edges(g, l, node):
    """edges inside loop l on which it is decided that this iteration will not execute `node`: [(from, to, facts disjuncts)]"""
    def reach(start):
        seen, st = {start}, [start]
        while st:
            u = st.pop()
            if u == node:
                return True
            for s, _ in g.nodes[u].succ:
                if s != l.head and s in l.body and s not in seen and g.nodes[s].facts:
                    seen.add(s)
                    st.append(s)
        return False
    out = []
    done, st = {l.head}, [l.head]
    while st:
        u = st.pop()
        if u == node:
            continue
        for s, label in g.nodes[u].succ:
            if s not in l.body or not g.nodes[s].facts:
                continue
            if s == l.head or not reach(s):
                ef = g.edge_facts(g.nodes[u], label)
                if ef is None:
                    continue
                ds = [x for x in (g._extend(d, ef) for d in g.OUT.get(u) or []) if x is not None]
                out.append((u, s, q._fs(g, ds)))
            elif s not in done:
                done.add(s)
                st.append(s)
    return out


def flag_edges(g, phi, val=True):
    """fact disjuncts under which the boolean flag `phi` gets the value val"""
    out = []
    for w, p in g.leaves_with_edges(phi):
        if w.op == "const" and w.a[1] is val:
            out += q._fs(g, g.OUT.get(p) or [])
    return out
