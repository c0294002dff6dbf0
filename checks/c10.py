"""C10: belief tables: stored under every subterm, without duplicates, best kept, found again."""
import adt
import loops
import q
import rank
from vg import show, kids

LEVEL = "other"
RULE = ("Storing a judgement: the loop over all its subterms has no early exit; in every iteration, for both tables of the concept, either a copy of the judgement is added or "
        "a belief with equal term and overlapping evidence was found in that table (all of the table is scanned), or the concept was absent and is created with the copy in both tables. "
        "After adding, on every path the table is sorted in descending order of its key and then cut to the given number of beliefs from the front. "
        "Lookup of a concept yields both tables completely; lookup by terms goes through all subterms of all terms. A stored copy has every field of the original.")
ASSUME = ["Arc::get_mut fails only if somebody else holds the concept (reported at run time)", "sort and hash map semantics of std"]
EQ, OV, SUBS, USUBS = "Term::checkEqTerm", "NarStamp::checkOverlap", "Term::retSubterms", "Term::retUniqueSubterms"
EXP, TV, USE, COPY = "Tv::calcExp", "NarSentence::retTv", "NarSentence::calcUsageUsefulness", "NarSentence::shallowCopySentence"
ATOMS = [EQ, OV, SUBS, USUBS, EXP, TV, USE, COPY]
TABLES = ("beliefsByExp", "beliefsByUsage")


def _call(v, name, *args):
    return v.op == "call" and v.a[0] == name and len(kids(v)) >= len(args) and all(a is None or a is k for a, k in zip(args, kids(v)))


def eqfact(d, el, s, g):
    """(term equal?, evidence overlaps?) between an element accepted by el and sentence s"""
    def f(name, fld):
        r = None
        for v, p in d:
            if name == EQ and v.op == "bin" and v.a[0] == "Eq" or v.op == "call" and v.a[0] == name:
                ks = kids(v)[:2]
                if any(k is g.field(s, fld) for k in ks) and any(k.op == "field" and k.a[-1] == fld and el(k.a[0]) for k in ks):
                    if p:
                        return True
                    r = False
        return r
    return f(EQ, "term"), f(OV, "stamp")


def absent(d):
    return any(v.op == "isv" and v.a[1] == "Some" and not p and v.a[0].op == "call" and v.a[0].a[0] in ("HashMap::get_mut", "HashMap::get", "Arc::get_mut") or
               v.op == "call" and v.a[0] == "HashMap::contains_key" and not p for v, p in d)


def present(d):
    return any(v.op == "isv" and v.a[1] == "Some" and p and v.a[0].op == "call" and v.a[0].a[0] in ("HashMap::get_mut", "HashMap::get") or
               v.op == "call" and v.a[0] == "HashMap::contains_key" and p for v, p in d)


def is_copy(v, s):
    return _call(v, COPY, s)


def key_ok(g, name, k, el):
    if name == "beliefsByExp":
        return k.op == "call" and k.a[0] == EXP and any(_call(x, TV) and el(kids(x)[0]) for x in q.subs(k))
    if k.op != "call" or k.a[0] != USE:
        return False
    u, t = kids(k)[:2]
    return u.op == "field" and u.a[-1] == "usage" and el(u.a[0]) and t.op == "param" and "urrentTime" in str(t.a[1])


def store(rep):
    g = rep.graph("NarMem::storeInConcepts", atoms=ATOMS)
    s = adt.param(g, 2)
    mem = adt.param(g, 1)
    n = adt.param(g, 3)
    ls = [l for l in loops.loops(g) for x in l.sources() if x.op == "call" and x.a[0] in (SUBS, USUBS) and kids(x)[0] is g.field(s, "term")]
    if not rep.check(len(ls) > 0, "store-all-subterms", "storeInConcepts", "a judgement is not stored under all subterms of its term (no loop over all of them)"):
        return
    for t in TABLES:
        adds = [e for e in g.events("call") if e.name in q.PUSH and e.args[0].op == "field" and e.args[0].a[-1] == t and g.nodes[e.node.id].facts]
        if not rep.check(bool(adds), "store-adds", t, "storing a judgement never adds it to %s" % t):
            continue
        for e in adds:
            ll = [l for l in ls if e.node.id in l.body]
            if not rep.check(bool(ll), "store-all-subterms", t + ":loop", "%s: not executed for every subterm" % e.where):
                continue
            L = ll[0]
            S = [x for x in L.sources() if x.op == "call" and x.a[0] in (SUBS, USUBS)][0]
            T = e.args[0]
            rep.check(is_copy(e.args[1], s), "store-copy", t, "%s: what is added to %s is %s, not a copy of the judgement" % (e.where, t, show(e.args[1])))
            of = [x for x in q.subs(T) if x.op == "call" and x.a[0].startswith("HashMap::") or x.op in ("idx", "hget")]
            rep.check(not of or any(adt.is_elem(k, S) for x in of for k in q.subs(x)), "store-concept", t, "%s: the concept is not the one of the subterm: %s" % (e.where, show(T)))
            for u, x, d in L.early():
                if g.nodes[x].facts and not any(u in b for b in L.inner):
                    rep.bad("store-all-subterms", t + ":early", "%s: storing stops before all subterms are handled [%s]" % (e.where, q.fmt(d)))
            el = lambda x, T=T: adt.is_elem(x, T)

            def both(d, el=el):
                a, b = eqfact(d, el, s, g)
                return a is True and b is True
            dedup = 0
            for u, x, ds in adt.avoid_edges(g, L, e.node.id):
                for d in ds:
                    if absent(d):
                        continue
                    k = rank.known(g, d, both)
                    dedup += k
                    rep.check(k, "store-unless-known", t, "%s: a judgement may be left out of %s although no belief with equal term and overlapping evidence is in it [%s]" % (e.where, t, q.fmt(d)))
            rep.check(dedup > 0, "store-no-duplicates", t, "%s: %s takes a judgement whose evidence is already counted there" % (e.where, t))
            for d in g.facts_at(e.node):
                rep.check(not both(d), "store-no-duplicates", t + ":inverted", "%s: a duplicate is added" % e.where)
            scanned = False
            for l in loops.loops(g):
                if any(x is T for x in l.sources()) and l.head in L.body:
                    ex = [d for u, x, d in l.early() if g.nodes[x].facts]
                    uses = any(v.op == "call" and v.a[0] == OV and any(k.op == "field" and el(k.a[0]) for k in kids(v)) for u in l.body for d in g.facts_at(g.nodes[u]) for v, p in d) or any(both(d) for d in ex)
                    if uses:
                        scanned = True
                        for d in ex:
                            rep.check(both(d), "store-scan-all", t, "%s: the search for a known belief stops early [%s]" % (e.where, q.fmt(d)))
            for v in rank.scan_values(g):
                if any(x.op == "call" and x.a[0] == OV and any(k.op == "field" and el(k.a[0]) for k in kids(x)) for w in truth_vals(g, v) for x in q.subs(w)):
                    w = loops.whole(v.a[0])
                    scanned = scanned or w is T
                    rep.check(w is T, "store-scan-all", t + ":cut", "%s: only a part of %s is searched for a known belief" % (e.where, t))
            rep.check(scanned, "store-scan-all", t + ":scan", "%s: %s is not searched completely for a known belief" % (e.where, t))
            sorted_cut(rep, g, L, t, T, e, n)
    insertion(rep, g, ls[0], s, mem)
    jud = [e for e in g.events("return")]
    rep.floor("store-return", len(jud), 1, "returns of storeInConcepts")
    # nothing but a non-judgement is refused
    J = lambda d: any(v.op == "bin" and v.a[0] == "Eq" and g.field(s, "punct") in (v.a[1], v.a[2]) and any(k.op == "agg" and k.a[1] == "JUGEMENT" for k in (v.a[1], v.a[2])) and not p or
                      v.op == "isv" and v.a[0] is g.field(s, "punct") and (v.a[1] == "JUGEMENT" and not p or v.a[1] != "JUGEMENT" and p) for v, p in d)
    for u, x, ds in rank.avoid(g, g.root.meta[0].id, {l.head for l in ls}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.check(J(d), "store-judgements", "skip", "a judgement may not be stored at all [%s]" % q.fmt(d))


def truth_vals(g, v):
    r = v.a[2] if v.op in ("any", "all") else v.a[1]
    out = []
    for w, d in q.resolve(g, r, []):
        out.append(w)
        out += [x for x, p in d]
    return out


def sorted_cut(rep, g, L, t, T, e, n):
    stops = {L.head}
    fam = []          # sorts of the table or of something mapped from it
    for so in rank.sorts(g):
        base, lim = rank.strip(so.coll)
        if so.coll is T or base is T:
            fam.append(so)
    fam = [so for so in fam if so.node.id in L.body]
    if not rep.check(bool(fam), "table-sorted", t, "%s: %s is not sorted after a belief was added" % (e.where, t)):
        return
    for so in fam:
        el = lambda x, T=T: adt.is_elem(x, T)
        if so.dir is None or not so.keys():
            rep.ok("table-key-undecided", t)
        else:
            for k in so.keys():
                rep.check(key_ok(g, t, k, el), "table-key", t, "%s: %s is ordered by %s" % (so.e.where, t, show(k)))
            flips = [x for x in g.events("call") if x.name == "slice::reverse" and x.args[0] in (so.coll, T)]
            rep.check((so.dir == "desc") != (len(flips) % 2 == 1), "table-best-first", t, "%s: %s is not sorted from best to worst" % (so.e.where, t))
    nodes = {so.node.id for so in fam}
    for u, x, ds in rank.avoid(g, e.node.id, nodes, stops, L.body):
        rep.bad("table-sorted", t + ":path", "%s: there is a path on which %s is not sorted after a belief was added [%s]" % (e.where, t, q.fmt(ds[0]) if ds else ""))
    # write back and cut
    colls = [T] + [so.coll for so in fam]
    back = [so.coll is T for so in fam]
    cut = []
    for tgt, v, ev in q.writes(g):
        if tgt is not T or ev.node.id not in L.body:
            continue
        b, lim = rank.strip(v)
        srcs = {b.id}
        if b.id in {c.id for c in colls} or any(so.coll is x for so in fam for x in q.subs(v)):
            if b is not T or any(so.coll is x for so in fam for x in q.subs(v)):
                back = [True]
            for k, l in lim:
                cut.append((ev, k, l))
    cut += [c for c in rank.cuts(g, colls) if c[0].node.id in L.body]
    rep.check(any(back), "table-sorted", t + ":back", "%s: the sorted copy of %s is never put back" % (e.where, t))
    pre = [c for c in cut if c[1] == "prefix"]
    for ev, k, l in cut:
        rep.check(k == "prefix", "table-keeps-best", t, "%s: %s is cut to something else than its best beliefs" % (ev.where, t))
    if not rep.check(bool(pre), "table-bounded", t, "%s: %s grows without bound" % (e.where, t)):
        return
    for ev, k, l in pre:
        rep.check(l is n, "table-bounded", t + ":limit", "%s: %s is limited to %s instead of the given number of beliefs" % (ev.where, t, show(l) if l is not None else "?"))
    cn = {rank.anchor(g, c[0]).id for c in pre}
    for so in fam:
        for u, x, ds in rank.avoid(g, so.node.id, cn, stops, L.body):
            for d in ds:
                rep.check(fits(d, T, n), "table-bounded", t + ":path", "%s: after sorting there is a path on which %s is not limited [%s]" % (so.e.where, t, q.fmt(d)))


def fits(d, T, n):
    for v, p in d:
        if v.op == "bin":
            a, b = v.a[1], v.a[2]
            if v.a[0] == "Lt" and a is n and loops.len_of(b) is not None and not p:
                return True
            if v.a[0] == "Lt" and b is n and loops.len_of(a) is not None and p:
                return True
            if v.a[0] == "Le" and b is n and loops.len_of(a) is not None and p:
                return True
            if v.a[0] == "Le" and a is n and loops.len_of(b) is not None and not p:
                return True
    return False


def insertion(rep, g, L, s, mem):
    S = [x for x in L.sources() if x.op == "call"][0]
    ins = [e for e in g.events("call") if e.name == "HashMap::insert" and e.args[0] is g.field(mem, "concepts") and g.nodes[e.node.id].facts]
    ent = [e for e in g.events("call") if "Entry::or_insert" in (e.name or "") or "Entry::or_default" in (e.name or "")]
    if not ins and ent:
        rep.ok("new-concept", "entry")
        return
    if not rep.check(bool(ins), "new-concept", "insert", "no concept is ever created"):
        return
    for e in ins:
        rep.check(adt.is_elem(e.args[1], S), "new-concept", "key", "%s: a concept is created under %s" % (e.where, show(e.args[1])))
        v = e.args[2]
        if v.op == "agg" and str(v.a[0]).endswith("Concept"):
            rep.check(g.field(v, "name") is e.args[1], "new-concept", "name", "%s: the name of the new concept is not its key" % e.where)
            for t in TABLES:
                lst = g.field(g.field(v, "payload"), t)
                cs = [(k, x) for k, x, _ in q.contents(g, lst)]
                rep.check(len(cs) == 1 and cs[0][0] == "item" and is_copy(cs[0][1], s), "new-concept", t, "%s: %s of a new concept is %s" % (e.where, t, show(lst)))
        for u, x, ds in adt.avoid_edges(g, L, e.node.id):
            for d in ds:
                rep.check(rank.known(g, d, present), "new-concept", "path", "%s: for a subterm without concept there is a path on which none is created [%s]" % (e.where, q.fmt(d)))


def copies(rep):
    g = rep.graph(COPY)
    s = adt.param(g, 1)
    n = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            if v is s:
                n += 1
                continue
            if not rep.check(v.op == "agg", "copy-sentence", "shape", "%s: a copied sentence is %s" % (e.where, show(v))):
                continue
            for f, x in zip(v.a[2], v.a[3:]):
                n += 1
                if f == "usage":
                    continue
                o = g.field(s, f)
                ok = x is o or copied(g, x, o, d)
                rep.check(ok, "copy-sentence", f, "%s: field %s of a copied sentence is %s" % (e.where, f, show(x)))
    rep.floor("copy-sentence", n, 1, "fields of copied sentences")


def copied(g, x, o, d):
    """x is o rebuilt variant by variant from its own components"""
    if x is o:
        return True
    if x.op == "mapped" and x.a[0] is o and all(y is o or not (y.op == "elem") or y.a[0] is o for y in q.subs(x.a[1])):
        return True
    if x.op == "phi":
        return all(copied(g, w, o, dd) for w, dd in q.resolve(g, x, d) if w is not x)
    if x.op == "agg":
        var = x.a[1]
        if var is None:
            return all(copied(g, y, g.field(o, f), d) for f, y in zip(x.a[2], x.a[3:]))
        known = q.variant_of(d, o)
        if known is not None and known != var:
            return False
        return all(copied(g, y, g.vfield(o, var, f), d) for f, y in zip(x.a[2], x.a[3:]))
    return False


def lookup(rep):
    g = rep.graph("NarMem::ret_beliefs_of_concept", atoms=ATOMS)
    mem, t = adt.param(g, 1), adt.param(g, 2)
    n = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            none = v.op == "agg" and v.a[1] == "None"
            if none:
                rep.check(absent(d), "lookup-both-tables", "none", "%s: no beliefs are reported for a concept that exists [%s]" % (e.where, q.fmt(d)))
                continue
            n += 1
            cs = q.contents(g, v)
            got = {x.a[-1] for k, x, _ in cs if k == "all" and x.op == "field"}
            cut = [x for x in q.subs(v) if x.op in ("filtered",) or x.op == "call" and x.a[0] in loops.CUTVIEW or x.op == "idx" and x.a[1].op == "agg" and loops.whole(x) is None]
            rep.check(set(TABLES) <= got and not cut, "lookup-both-tables", "tables", "%s: a lookup yields %s" % (e.where, show(v)))
            rep.check(t in q.subs(v) or not any(x.op in ("call", "idx") and mem in q.subs(x) for x in q.subs(v)), "lookup-key", "key", "%s: the concept looked up is not the given term's: %s" % (e.where, show(v)))
    rep.floor("lookup-both-tables", n, 1, "answers of the concept lookup")
    LK = "NarMem::ret_beliefs_of_concept"
    g = rep.graph("NarMem::ret_beliefs_by_terms_nonunique", atoms=ATOMS + [LK])
    mem, ts = adt.param(g, 1), adt.param(g, 2)
    lk = [e for e in g.events("call") if e.name == LK]
    if not rep.check(bool(lk), "lookup-by-terms", "lookup", "the lookup by terms does not look up concepts"):
        return
    for e in lk:
        x = e.args[1]
        rep.check(e.args[0] is mem, "lookup-by-terms", "mem", "%s: a different memory is consulted" % e.where)
        c = loops.element_of(x)
        ok = c is not None and c.op == "call" and c.a[0] in (SUBS, USUBS) and adt.is_elem(kids(c)[0], ts)
        if not ok and x.op == "call" and x.a[0] in (SUBS, USUBS):  # an element of a flat_map is shown as the list it is from
            ok = adt.is_elem(kids(x)[0], ts) and any(v.op == "mapped" and len(v.a) > 3 and v.a[3] == "Iterator::flat_map" and v.a[1] is x for v in list(g.pool.t.values()))
        rep.check(ok, "lookup-by-terms", "subterms", "%s: looked up are %s, not all subterms of all terms" % (e.where, show(x)))
    for l in loops.loops(g):
        rep.check(not [1 for u, s_, d in l.early() if g.nodes[s_].facts], "lookup-by-terms", "early", "the lookup by terms stops early")
        rep.check(all(w is not None for w in [loops.whole(nx.args[0]) for nx in l.nexts]), "lookup-by-terms", "cut", "the lookup by terms leaves out elements")
    adds = [e for e in g.events("call") if e.name in q.PUSH | q.EXTEND]
    for e in adds:
        l = rank.in_loop(g, e.node)
        while l is not None:
            for u, s_, ds in adt.avoid_edges(g, l, e.node.id):
                for d in ds:
                    rep.check(any(v.op == "isv" and v.a[1] == "Some" and not p for v, p in d), "lookup-by-terms", "skip", "%s: beliefs found may be left out [%s]" % (e.where, q.fmt(d)))
            up = [x for x in loops.loops(g) if l.head in x.body and x.head != l.head]
            l = min(up, key=lambda x: len(x.body)) if up else None
    rep.floor("lookup-by-terms", len(lk), 1, "lookups")


def usage(rep):
    """the usage rank is n/(n+1) for n = uses per (1 + time since the last use); using a belief updates both"""
    import sym
    import sympy as sp
    g = rep.graph(USE)
    u, t = adt.param(g, 1), adt.param(g, 2)
    C, Lu, T = sp.symbols("C L T", real=True)
    nm = {g.field(u, "useCount").id: C, g.field(u, "lastUsed").id: Lu, t.id: T}
    r = sp.Max(T - Lu, 0) + 1
    want = (C / r) / (C / r + 1)
    for e in g.events("return"):
        ps = {x.id for x in q.subs(e.val)}
        alts = list(q.resolve(g, e.val, []))
        ps |= {x.id for w, d in alts for x in q.subs(w)}
        rep.check(set(nm) <= ps, "usage-rank", "inputs", "%s: the usage rank does not depend on use count, time of last use and current time" % e.where)
        if len(alts) == 1:
            try:
                got = sym.to_sym(alts[0][0], lambda v: nm.get(v.id))
            except sym.NotNumeric:
                continue
            rep.check(sym.equal(got, want), "usage-rank", "formula", "%s: the usage rank is %s" % (e.where, got))
    for f in sorted(rep.c.fns):
        fn = rep.c.fns[f]
        if fn.kind == "Closure" or not any("NarSentence::Usage" in l["t"] and "mut" in l["t"] for l in fn.locals[1:fn.argc + 1]) or len(f.split("::")) > 2:
            continue
        g = rep.graph(f)
        us = [adt.param(g, i) for i in range(1, fn.argc + 1) if "Usage" in fn.locals[i]["t"]]
        tm = [adt.param(g, i) for i in range(1, fn.argc + 1) if fn.locals[i]["t"] == "i64"]
        w = {tt.a[-1]: v for tt, v, _ in q.writes(g) if tt.op == "field" and tt.a[0] in us}
        if not w or not tm:
            continue
        rep.check(w.get("lastUsed") is tm[0], "usage-update", f + ":time", "%s does not record the time of use" % f)
        c = w.get("useCount")
        rep.check(c is not None and adt.linear(g, c) == {g.field(us[0], "useCount"): 1, 1: 1}, "usage-update", f + ":count", "%s does not count the use" % f)


def check(rep):
    store(rep)
    copies(rep)
    lookup(rep)
    usage(rep)
    rep.floor("table-sorted", len(TABLES), 2, "tables")
