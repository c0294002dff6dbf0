"""Rules about the evidence base operations themselves (shared by C02, C03, C11)."""
import q
import loops
import rank
from vg import V, show, kids

OVERLAP = "NarStamp::checkOverlap"
MERGE = "NarStamp::merge"
SAME = "NarStamp::checkSame"


def _ids(g, i):
    P = g.pool.mk("param", i, g.root.fn.locals[i].get("n"))
    return g.field(P, "ids")


def _elems(g, v, A):
    return loops.element_of(v) is A


def pair_fact(g, d, A, B):
    """polarity of a decided equality between an element of A and an element of B"""
    r = None
    for v, p in d:
        if v.op == "bin" and v.a[0] == "Eq":
            x, y = v.a[1], v.a[2]
            if _elems(g, x, A) and _elems(g, y, B) or _elems(g, x, B) and _elems(g, y, A):
                if p:
                    return True
                r = False
        if v.op in ("any", "all") or v.op == "call" and v.a[0] == "slice::contains":
            m = exists_val(g, v, A, B)
            if m is not None and m[0] == "inner":
                if p:
                    return True
                r = False
    return r


def exists_val(g, v, A, B):
    """v is a boolean expression 'some element of A equals some element of B' ("full"), or the same for one given
    element of one side ("inner")"""
    if v.op == "un" and v.a[0] == "Not":
        x = v.a[1]
        if x.op == "all":
            c, e, r = x.a[0], x.a[1], x.a[2]
            return _quant(g, c, e, r, A, B, True)
        return None
    if v.op == "any":
        return _quant(g, v.a[0], v.a[1], v.a[2], A, B, False)
    if v.op == "call" and v.a[0] == "slice::contains":
        for X, Y in ((A, B), (B, A)):
            if v.a[1] is X and _elems(g, v.a[2], Y):
                return ("inner", Y)
    return None


def _quant(g, coll, el, r, A, B, neg):
    if neg:
        if r.op == "un" and r.a[0] == "Not":
            r = r.a[1]
        elif r.op == "bin" and r.a[0] == "Ne":
            r = g.binop("Eq", r.a[1], r.a[2])
        else:
            return None
    w = loops.whole(coll)
    for X, Y in ((A, B), (B, A)):
        if w is not X:
            continue
        if r.op == "bin" and r.a[0] == "Eq":
            for a, b in ((r.a[1], r.a[2]), (r.a[2], r.a[1])):
                if _elems(g, a, X) and _elems(g, b, Y):
                    return ("inner", Y)
        m = exists_val(g, r, A, B)
        if m is not None and m[0] == "inner" and m[1] is X:
            return ("full", None)
    return None


def overlap(rep):
    g = rep.graph(OVERLAP)
    A, B = _ids(g, 1), _ids(g, 2)
    fn = OVERLAP
    rets = list(g.events("return"))
    rep.check(bool(rets), "overlap-returns", fn, "no return found")
    seen = {True: 0, False: 0}
    vals = []
    for e in rets:
        # result accumulated in a flag: the edges that set it
        for w, p in (g.leaves_with_edges(e.val) if e.val.op == "phi" else []):
            if w.op == "const" and w.a[1] is True:
                ds = q._fs(g, g.OUT.get(p) or [])
                if ds and any(u.op == "phi" and u.a[-1][1] in g.loops for u in q.phichain(g, e.val)):
                    seen[True] += 1
                    rep.check(all(pair_fact(g, d, A, B) is True for d in ds), "overlap-only-if-shared-id", fn + ":flag",
                              "%s: overlap is noted without an id of one base having been found in the other" % e.where)
    for e in rets:
        for v, d in q.alts(g, e.node, e.val):
            m = exists_val(g, v, A, B)
            if m is not None and m[0] == "full":
                rep.ok("overlap-iff-shared-id", "%s: quantified expression" % e.where)
                seen[True] += 1
                seen[False] += 1
                continue
            if v.op == "const" and v.a[1] is True:
                seen[True] += 1
                rep.check(pair_fact(g, d, A, B) is True, "overlap-only-if-shared-id", fn + ":true",
                          "%s: overlap is reported without an id of one base having been found in the other [%s]" % (e.where, q.fmt(d)))
            elif v.op == "const" and v.a[1] is False:
                seen[False] += 1
                vals.append((e, d))
            elif v.op == "bin" and v.a[0] == "Eq" and pair_fact(g, [(v, True)], A, B):
                rep.bad("overlap-if-shared-id", fn + ":single", "%s: only a single pair of ids decides the result" % e.where)
            else:
                rep.bad("overlap-iff-shared-id", fn + ":form", "%s: the result %s is not decided by comparing all ids of both bases [%s]" % (e.where, show(v), q.fmt(d)))
    if vals:
        ls = loops.loops(g)
        inner_any = any(x.op in ("any",) or x.op == "call" and x.a[0] == "slice::contains" for x in g.pool.t.values())
        cov = [s for l in ls for s in l.sources()]
        for X, nm in ((A, "first"), (B, "second")):
            ok = X in cov or inner_any and any(exists_val(g, v, A, B) for v in list(g.pool.t.values()) if v.op in ("any", "call"))
            rep.check(ok, "overlap-visits-all", nm, "%s: not every id of the %s evidence base is visited" % (fn, nm))
        for l in ls:
            for u, s, d in l.early():
                okk = pair_fact(g, d, A, B) is True or any(v.op == "phi" and p for v, p in d)
                rep.check(okk, "overlap-no-early-stop", "%s:loop" % fn, "%s: the search stops before all ids were compared [%s]" % (fn, q.fmt(d)))
            if not l.inner:
                for p, d in l.latches():
                    rep.check(pair_fact(g, d, A, B) is not None, "overlap-compares-each", "%s:loop" % fn, "%s: a pair of ids is skipped without being compared [%s]" % (fn, q.fmt(d)))
        for e, d in vals:
            rep.check(pair_fact(g, d, A, B) is not True, "overlap-if-shared-id", fn + ":false", "%s: no overlap is reported although a shared id was found" % e.where)
            rep.check(any(l.exhausted(d) for l in ls if A in l.sources() or B in l.sources()) or inner_any, "overlap-if-shared-id", fn + ":early-false",
                      "%s: no overlap is reported before all ids were compared [%s]" % (e.where, q.fmt(d)))
    rep.check(seen[True] and seen[False], "overlap-decides", fn, "%s never returns %s" % (fn, [k for k in seen if not seen[k]]))


def same(rep):
    g = rep.graph(SAME)
    A, B = _ids(g, 1), _ids(g, 2)
    fn = SAME

    def lenfact(d):
        for v, p in d:
            if v.op == "bin" and v.a[0] == "Eq" and {id(loops.len_of(v.a[1])), id(loops.len_of(v.a[2]))} == {id(A), id(B)}:
                return p
        return None

    def whole_eq(v):
        return v.op == "bin" and v.a[0] == "Eq" and {v.a[1].id, v.a[2].id} == {A.id, B.id}
    ls = loops.loops(g)
    n = {True: 0, False: 0}
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            if whole_eq(v) or v.op == "call" and v.a[0] == "Iterator::eq" and {x.id for x in kids(v)} == {A.id, B.id}:
                n[True] += 1
                n[False] += 1
                continue
            if v.op == "all" and lenfact(d) is True and _zip_all(g, v, A, B):
                n[True] += 1
                n[False] += 1
                continue
            if v.op == "const" and v.a[1] is False:
                n[False] += 1
                rep.check(lenfact(d) is False or pair_fact(g, d, A, B) is False, "same-false-only-if-different", fn,
                          "%s: identical evidence bases may be called different [%s]" % (e.where, q.fmt(d)))
            elif v.op == "const" and v.a[1] is True:
                n[True] += 1
                rep.check(lenfact(d) is True, "same-length", fn, "%s: evidence bases of different size may be called the same [%s]" % (e.where, q.fmt(d)))
                rep.check(any(l.exhausted(d) or {A, B} & set(l.sources()) for l in ls), "same-visits-all", fn, "%s: equality reported without comparing every id" % e.where)
            else:
                rep.bad("same-form", fn + show(v, 3), "%s: result %s is not the position-wise equality of both evidence bases [%s]" % (e.where, show(v), q.fmt(d)))
    for l in ls:
        rep.check(A in l.sources() or B in l.sources(), "same-visits-all", "%s:range" % fn, "%s: the comparison loop does not cover all positions" % fn)
        for u, s, d in l.early():
            rep.check(pair_fact(g, d, A, B) is False, "same-no-early-stop", fn, "%s: the comparison stops early [%s]" % (fn, q.fmt(d)))
        for p, d in l.latches():
            rep.check(pair_fact(g, d, A, B) is True, "same-compares-each", fn, "%s: a position is skipped or a difference ignored [%s]" % (fn, q.fmt(d)))
    for v in list(g.pool.t.values()):
        if v.op == "bin" and v.a[0] == "Eq" and pair_fact(g, [(v, True)], A, B) and all(x.op == "idx" for x in v.a[1:3]):
            rep.check(v.a[1].a[1] is v.a[2].a[1], "same-position", fn, "%s: compares different positions: %s" % (fn, show(v)))
    rep.check(n[True] and n[False], "same-decides", fn, "%s never returns %s" % (fn, [k for k in n if not n[k]]))


def _zip_all(g, v, A, B):
    c, r = v.a[0], v.a[2]
    if not (c.op == "call" and c.a[0] == "Iterator::zip"):
        return False
    if {x.id for x in (loops.whole(c.a[1]), loops.whole(c.a[2])) if x is not None} != {A.id, B.id}:
        return False
    return r.op == "bin" and r.a[0] == "Eq" and pair_fact(g, [(r, True)], A, B) is True


CAP = 120


def merge(rep):
    g = rep.graph(MERGE)
    A, B = _ids(g, 1), _ids(g, 2)
    fn = MERGE
    outs = []
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            ids = g.field(v, "ids")
            outs.append((e, ids, d))
    rep.check(bool(outs), "merge-returns", fn, "no result")
    pieces = {A.id: [], B.id: []}
    for e, ids, d in outs:
        base, cap = ids, None
        k = 0
        while k < 6:
            k += 1
            if base.op == "idx" and base.a[1].op == "agg" and "Range" in str(base.a[1].a[0]):
                r = base.a[1]
                fs = dict(zip(r.a[2], r.a[3:]))
                if "start" in fs and loops.ival(fs["start"]) != 0:
                    rep.bad("merge-keeps-oldest", fn, "%s: the first ids are cut off" % e.where)
                cap = _cap(fs.get("end"), cap)
                base = base.a[0]
                continue
            if base.op == "call" and base.a[0] == "Iterator::take":
                cap = _cap(base.a[2], cap)
                base = base.a[1]
                continue
            break
        for ev in g.events("call"):
            if ev.name == "Vec::truncate" and ev.args[0] is base:
                cap = _cap(ev.args[1], cap)
        rep.check(cap == CAP, "merge-cap", fn, "%s: the combined evidence base is cut at %s ids, documented bound %d" % (e.where, cap, CAP))
        for kind, v, ev in q.contents(g, base):
            src = _src(v, A, B)
            if src is None:
                rep.bad("merge-only-premise-ids", "%s:%s" % (fn, show(v, 4)), "%s: the combined base contains %s, which is not an id of a premise" % (ev.where if ev else e.where, show(v)))
                continue
            pieces[src.id].append((kind, v, ev))
    for X, nm in ((A, "first"), (B, "second")):
        ps = pieces[X.id]
        if not rep.check(bool(ps), "merge-has-both", nm, "%s: no id of the %s premise enters the combined evidence base" % (fn, nm)):
            continue
        full = False
        loop_part = None
        tail = None
        for kind, v, ev in ps:
            if kind == "all" and loops.whole(v) is X:
                full = True
            elif kind == "item" and ev is None and v.op == "elem":
                full = True
            elif kind == "item" and v.op in ("elem", "idx"):
                for l in loops.loops(g):
                    if ev is not None and ev.node.id in l.body:
                        if X in l.sources():
                            full = full or _uncond(g, l, ev)
                        elif l.early():
                            pass
                        loop_part = (l, v, ev)
            elif kind == "all" and v.op == "idx":
                tail = v
            elif kind == "item" and _someget(v):
                full = True
        if not full and loop_part and tail is not None:
            l, v, ev = loop_part
            st = dict(zip(tail.a[1].a[2], tail.a[1].a[3:])).get("start")
            en = dict(zip(tail.a[1].a[2], tail.a[1].a[3:])).get("end")
            ix = v.a[1] if v.op == "idx" else None
            bound = _bound(g, l)
            full = st is not None and (st is ix or bound is not None and st is bound or ix is None) and (en is None or loops.is_len(en, X))
            if ix is not None and l.index and l.index[1] != [0]:
                full = False
            full = full and _uncond(g, l, ev)
        if not full and loop_part and loop_part[0].sources() == [] and tail is None:
            # one loop over max(len) with per-side bounds checks
            full = any(isinstance(x, V) and x.op == "call" and x.a[0] in ("Ord::max",) for x in g.pool.t.values())
        rep.check(full, "merge-complete", nm, "%s: not every id of the %s premise enters the combined evidence base (%s)" % (fn, nm, [show(v, 4) for _, v, _ in ps]))
    # interleaving: an element of each side is added per round
    inter = False
    for l in loops.loops(g):
        has = {A.id: 0, B.id: 0}
        for X in (A, B):
            for kind, v, ev in pieces[X.id]:
                if kind == "item" and ev is not None and ev.node.id in l.body:
                    has[X.id] = 1
        if l.index and all(has.values()):
            _while_both(rep, g, l, A, B, [ev for X in (A, B) for kind, v, ev in pieces[X.id] if ev is not None and ev.node.id in l.body and v.op == "idx" and v.a[1] is l.index[0]])
        b = _bound(g, l)
        inter = inter or all(has.values()) and not (b is not None and b.op == "const")
    inter = inter or any(v.op == "call" and v.a[0] == "Iterator::zip" for v in g.pool.t.values())
    rep.check(inter, "merge-interleaves", fn, "%s: the ids of the premises are not interleaved, so the bound drops one premise's ids first" % fn)


def _while_both(rep, g, l, A, B, pushes):
    """ids are taken alternately as long as both premises have more, and no longer"""
    ix = l.index[0]

    def sides(k):
        if loops.is_len(k, A):
            return {A.id}
        if loops.is_len(k, B):
            return {B.id}
        if k.op == "call" and k.a[0].split("::")[-1] == "min" and len(k.a) >= 3:
            x, y = sides(k.a[1]), sides(k.a[2])
            return x | y
        if k.op == "phi" and k.id in g.phis:
            # the smaller one, chosen by a comparison
            for pred, w in g.phis[k.id]:
                X, Y = (A, B) if loops.is_len(w, A) else (B, A)
                if not loops.is_len(w, X):
                    return set()
                for d in q._fs(g, g.OUT[pred]):
                    if not any(c and loops.is_len(c[0], X) and loops.is_len(c[1], Y) for c in (rank.less(v, p) for v, p in d)):
                        return set()
            return {A.id, B.id}
        return set()

    def said(d):
        lo, hi = set(), False
        for v, p in d:
            if v.op == "bin" and v.a[0] == "Eq" and ix in v.a[1:3]:
                k = v.a[2] if v.a[1] is ix else v.a[1]
                if sides(k):
                    if p:
                        hi = True
                    else:
                        lo |= sides(k)
            c = rank.less(v, p)
            if c and c[0] is ix and c[2]:
                lo |= sides(c[1])
            if c and c[1] is ix and sides(c[0]):
                hi = True
        return lo, hi
    for ev in pushes:
        for d in g.facts_at(ev.node):
            X = A if any(x is A for x in q.subs(ev.args[1])) else B
            if rep.check(X.id in said(d)[0], "merge-interleaves", "within", "%s: an id is taken at a position which isn't known to be within the premise" % ev.where):
                pass
    for u, s_, ds in l.exits:
        if g.nodes[s_].facts and not _dead(g, s_):
            for d in ds:
                if l.nexts and l.exhausted(d):
                    continue
                rep.check(said(d)[1], "merge-interleaves", "until", "%s:%s: ids may no longer be taken alternately though both premises have more" % (MERGE, g.nodes[u].line))


def _dead(g, n):
    """only leads to a panic"""
    todo, seen = [n], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if any(u == r.id for r in g.root.retnodes):
            return False
        todo += [x for x, _ in g.nodes[u].succ]
    return True


def _someget(v):
    return v.op in ("vfield", "okval") and any(x.op == "call" and x.a[0] == "slice::get" for x in q.subs(v))


def _uncond(g, l, ev):
    """the push happens in every iteration"""
    n = 0
    for v, p in [f for d in g.facts_at(ev.node) for f in d]:
        if v.op == "isv" or v.op == "bin" and l.index and v.a[1] is l.index[0]:
            continue
        n += 1
    return True if n == 0 else all(any(True for _ in [0]) for _ in [0]) and not _skips(g, l, ev)


def _skips(g, l, ev):
    """some path through the loop body avoids ev's node"""
    body = l.body
    seen = {l.head}
    st = [l.head]
    while st:
        u = st.pop()
        if u == ev.node.id:
            continue
        for s, _ in g.nodes[u].succ:
            if s == l.head:
                return True
            if s in body and s not in seen and g.nodes[s].facts:
                seen.add(s)
                st.append(s)
    return False


def _bound(g, l):
    if l.index:
        for u, s, ds in l.exits:
            for d in ds:
                for v, p in d:
                    if v.op == "bin" and v.a[0] == "Lt" and v.a[1] is l.index[0]:
                        return v.a[2]
    for e in l.nexts:
        c = e.args[0]
        if c.op == "agg" and "Range" in str(c.a[0]):
            return dict(zip(c.a[2], c.a[3:])).get("end")
    return None


def _src(v, A, B):
    for X in (A, B):
        if X in q.subs(v):
            Y = B if X is A else A
            if Y in [x for x in q.subs(v)] and v.op not in ("elem", "idx"):
                return None
            b = v
            while b.op in ("elem", "idx", "cidx", "okval", "vfield", "call") and b is not X:
                b = b.a[1] if b.op == "call" else b.a[0]
            if b is X:
                return X
    return None


def _cap(v, cur):
    if v is None:
        return cur
    c = loops.ival(v)
    if c is None and v.op == "call" and v.a[0] in ("Ord::min",):
        for x in kids(v):
            if loops.ival(x) is not None:
                c = loops.ival(x)
    if c is None:
        return cur
    return c if cur is None else min(c, cur)
