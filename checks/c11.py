"""C11: revision replaces the revised belief everywhere and its conclusion is used."""
import adt
import c10
import loops
import q
import rank
from vg import show, kids

LEVEL = "other"
RULE = ("Revision: for all subterms of the judgement and for both tables of the concept, the table is scanned completely; a scan ends early only at a belief with equal term and "
        "disjoint evidence and goes past a belief only if the term differs or the evidence overlaps. The belief found is taken out and in its place goes a judgement with its term, the "
        "combined evidence base and the revision of exactly the two truth values; taking out and putting in happen together on every path. The revised judgement is returned whenever there was one. "
        "Adding a judgement: it is stored as a new belief exactly if revision returned nothing, and both it and the revision conclusion are handed on as tasks.")
ASSUME = ["Arc::get_mut fails only if somebody else holds the concept (reported at run time)"]
EQ, OV, MERGE, REV, TV, SUBS, USUBS, COPY = "Term::checkEqTerm", "NarStamp::checkOverlap", "NarStamp::merge", "Tv::rev", "NarSentence::retTv", "Term::retSubterms", "Term::retUniqueSubterms", "NarSentence::shallowCopySentence"
ATOMS = [EQ, OV, MERGE, REV, TV, SUBS, USUBS, COPY]
REVISE, STORE, ADD = "NarWorkingCycle::memReviseBelief", "NarMem::storeInConcepts", "NarWorkingCycle::memAddTask"
TAKE = {"Vec::remove", "Vec::swap_remove"}


def tables_of(v):
    """names of the tables a container value may be"""
    if v.op == "field" and v.a[-1] in c10.TABLES:
        return {v.a[-1]}
    if v.op == "elem" and v.a[0].op == "agg" and v.a[0].a[0] == "array":
        return {x.a[-1] for x in v.a[0].a[3:] if hasattr(x, "op") and x.op == "field" and x.a[-1] in c10.TABLES}
    return set()


def of_table(x, T):
    return adt.is_elem(x, T) or x.op == "call" and x.a[0] in TAKE and kids(x)[0] is T


def uncopy(v):
    while v.op == "call" and v.a[0] == COPY:
        v = v.a[1]
    return v


def punct_not(g, s, d, var="JUGEMENT"):
    pu = g.field(s, "punct")
    return any(v.op == "bin" and v.a[0] == "Eq" and pu in (v.a[1], v.a[2]) and any(k.op == "agg" and k.a[1] == var for k in (v.a[1], v.a[2])) and not p or
               v.op == "isv" and v.a[0] is pu and (v.a[1] == var and not p or v.a[1] != var and p) for v, p in d)


def check_belief(rep, g, t, T, s, v, d, where):
    """v is the revision of a belief of T with s"""
    if not rep.check(v.op == "agg" and str(v.a[0]).endswith("Sentence"), "revised-belief", t + ":shape", "%s: what is put into %s is %s" % (where, t, show(v))):
        return
    f = lambda n: g.field(v, n)
    st = f("stamp")
    bs = [k.a[0] for k in kids(st) if k.op == "field" and k.a[-1] == "stamp" and k.a[0] is not s] if st.op == "call" and st.a[0] == MERGE else []
    ok = len(bs) == 1 and of_table(bs[0], T) and any(k is g.field(s, "stamp") for k in kids(st))
    if not rep.check(ok, "revised-evidence", t, "%s: the evidence base of the revised belief is %s" % (where, show(st))):
        return
    b = bs[0]
    rep.check(f("term") in (g.field(b, "term"), g.field(s, "term")), "revised-belief", t + ":term", "%s: the revised belief is about %s" % (where, show(f("term"))))
    rep.check(f("punct") in (g.field(b, "punct"), g.field(s, "punct")) or f("punct").op == "agg" and f("punct").a[1] == "JUGEMENT", "revised-belief", t + ":punct", "%s: the revised belief is a %s" % (where, show(f("punct"))))
    for nm in ("t", "expDt"):
        rep.check(f(nm) in (g.field(b, nm), g.field(s, nm)), "revised-belief", t + ":" + nm, "%s: %s of the revised belief is %s" % (where, nm, show(f(nm))))
    rv = [x for x in q.subs(f("evi")) if x.op == "call" and x.a[0] == REV]
    ok = len(rv) == 1
    if ok:
        src = []
        for k in kids(rv[0])[:2]:
            src += [kids(x)[0] for x in q.subs(k) if x.op == "call" and x.a[0] == TV]
        ok = {x.id for x in src} == {b.id, s.id} and len(src) == 2
    rep.check(ok, "revised-truth", t, "%s: the truth value of the revised belief is %s, not the revision of the two truth values" % (where, show(f("evi"))))
    at = [x for x in g.events("call") if x.val is b and x.name in TAKE] or [x for x in g.events("call") if rv and x.val is rv[0]]
    el = (lambda x: x is b) if adt.is_elem(b, T) else (lambda x: adt.is_elem(x, T))
    for x in at:
        for dd in g.facts_at(x.node):
            m = rank.known(g, dd, lambda y: c10.eqfact(y, el, s, g) == (True, False))
            rep.check(m, "revised-matches", t, "%s: a belief may be revised with a judgement about another term or with overlapping evidence [%s]" % (x.where, q.fmt(dd)))


def revision(rep):
    g = rep.graph(REVISE, atoms=ATOMS)
    s = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "Sentence" in g.root.fn.locals[i]["t"]][0]
    ls = [l for l in loops.loops(g) for x in l.sources() if x.op == "call" and x.a[0] in (SUBS, USUBS) and kids(x)[0] is g.field(s, "term")]
    if not rep.check(bool(ls), "revise-all-subterms", "loop", "revision does not go through all subterms of the judgement"):
        return
    for u, x, ds in rank.avoid(g, g.root.meta[0].id, {l.head for l in ls}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.check(punct_not(g, s, d), "revise-judgements", "skip", "a judgement may not be considered for revision [%s]" % q.fmt(d))
    outs = []
    for t in c10.TABLES:
        puts = []
        for e in g.events("call"):
            if e.name in q.PUSH and t in tables_of(e.args[0]):
                puts.append((e, e.args[0], e.args[1]))
            elif e.name == "Vec::insert" and t in tables_of(e.args[0]):
                puts.append((e, e.args[0], e.args[2]))
        inplace = set()
        for tgt, v, e in q.writes(g):
            if loops.element_of(tgt) is not None and t in tables_of(loops.element_of(tgt)):
                puts.append((e, loops.element_of(tgt), v))
                inplace.add(e)
        puts = [p for p in puts if g.nodes[p[0].node.id].facts]
        if not rep.check(bool(puts), "revise-both-tables", t, "revision never puts a revised belief into %s" % t):
            continue
        for e, T, v in puts:
            ll = [l for l in ls if e.node.id in l.body]
            if not rep.check(bool(ll), "revise-all-subterms", t, "%s: not executed for every subterm" % e.where):
                continue
            L = ll[0]
            S = [x for x in L.sources() if x.op == "call" and x.a[0] in (SUBS, USUBS)][0]
            for u, x, d in L.early():
                if g.nodes[x].facts and not any(u in b for b in L.inner):
                    rep.bad("revise-all-subterms", t + ":early", "%s: revision stops before all subterms are handled [%s]" % (e.where, q.fmt(d)))
            of = [x for x in q.subs(T) if x.op == "call" and x.a[0].startswith("HashMap::") or x.op in ("idx", "hget")]
            rep.check(not of or any(adt.is_elem(k, S) for x in of for k in q.subs(x)), "revise-concept", t, "%s: the concept is not the one of the subterm: %s" % (e.where, show(T)))
            for w, d in q.alts(g, e.node, uncopy(v)):
                w = uncopy(w)
                if w.op == "undef" or w.op == "vfield" and w.a[0].op == "agg" and w.a[0].a[1] == "None":
                    continue
                check_belief(rep, g, t, T, s, w, d, e.where)
            # scan
            el = lambda x, T=T: adt.is_elem(x, T)
            both = lambda d, el=el: c10.eqfact(d, el, s, g) == (True, False)
            neither = lambda d, el=el: c10.eqfact(d, el, s, g)[0] is False or c10.eqfact(d, el, s, g)[1] is True
            scanned = False
            for l in loops.loops(g):
                if any(x is T for x in l.sources()) and l.head in L.body:
                    scanned = True
                    for u, x, d in l.early():
                        if g.nodes[x].facts:
                            rep.check(both(d), "revise-scan", t + ":stop", "%s: the search in %s stops at a belief that is not revised [%s]" % (e.where, t, q.fmt(d)))
                    rvn = [x.node.id for x in g.events("call") if x.name == REV and x.node.id in l.body and any(y.op != "const" and of_table(y, T) for y in q.subs(x.val))]
                    past = [d for _, d in l.latches()] if not rvn else [d for _, _, ds in adt.avoid_edges(g, l, rvn[0]) for d in ds]
                    for d in past:
                        rep.check(neither(d), "revise-scan", t + ":pass", "%s: a belief with equal term and disjoint evidence may be passed over [%s]" % (e.where, q.fmt(d)))
            for v2 in rank.scan_values(g):
                tv = c10.truth_vals(g, v2)
                if any(x.op == "call" and x.a[0] in (OV, EQ) and any(k.op == "field" and el(k.a[0]) for k in kids(x)) for w in tv for x in q.subs(w)):
                    scanned = scanned or loops.whole(v2.a[0]) is T
                    rep.check(loops.whole(v2.a[0]) is T, "revise-scan", t + ":cut", "%s: only a part of %s is searched" % (e.where, t))
                    r = v2.a[2] if v2.op in ("any", "all") else v2.a[1]
                    for d in rank.truths(g, r, False):
                        rep.check(neither(d), "revise-scan", t + ":pass", "%s: a belief with equal term and disjoint evidence may be passed over [%s]" % (e.where, q.fmt(d)))
            rep.check(scanned, "revise-scan", t, "%s: %s is not searched completely" % (e.where, t))
            # the old one is taken out
            takes = [x for x in g.events("call") if x.name in TAKE and x.args[0] is T and x.node.id in L.body and g.nodes[x.node.id].facts]
            if e in inplace:
                takes = [e]
            retain = [x for x in g.events("call") if x.name == "Vec::retain" and x.args[0] is T and x.node.id in L.body]
            if not rep.check(bool(takes or retain), "revise-replaces", t, "%s: the belief that was revised stays in %s" % (e.where, t)):
                continue
            if retain and not takes:
                continue
            for x in takes:
                if x is e:
                    continue
                # index of a matching belief
                for w, d in q.alts(g, x.node, x.args[1]):
                    if w.op == "vfield" and w.a[0].op == "agg" and w.a[0].a[1] == "None":
                        continue
                    ok = w.op == "elem" and w.a[0].op == "agg" and any(loops.len_of(k) is T for k in w.a[0].a[3:] if hasattr(k, "op")) or w.op == "phi" or any(y.op in ("position", "count") for y in q.subs(w)) \
                        or any(l.index and l.index[0] is w for l in loops.loops(g))
                    rep.check(ok, "revise-replaces", t + ":index", "%s: the belief taken out of %s is number %s, not the one revised" % (x.where, t, show(w)))
                for u, z, ds in rank.avoid(g, x.node.id, e.node.id, {L.head}, L.body):
                    if e.node.id in reach_from(g, e.node.id, x.node.id, L):
                        continue
                    for d in ds:
                        rep.bad("revise-replaces", t + ":lost", "%s: a belief is taken out of %s and on some path nothing is put in its place [%s]" % (x.where, t, q.fmt(d)))
            if e not in takes:
                tn = {x.node.id for x in takes}
                fwd = [x for x in takes if path(g, x.node.id, e.node.id, L)]
                bwd = [x for x in takes if path(g, e.node.id, x.node.id, L)]
                if not fwd and bwd:
                    for u, z, ds in rank.avoid(g, e.node.id, tn, {L.head}, L.body):
                        for d in ds:
                            rep.bad("revise-replaces", t + ":kept", "%s: on some path the belief revised stays in %s [%s]" % (e.where, t, q.fmt(d)))
            # whenever one matched, it is replaced
            first = {x.node.id for x in takes} | {e.node.id}
            for u, z, ds in rank.avoid(g, L.head, first, {L.head}, L.body):
                for d in ds:
                    nomatch = any(l.exhausted(d) for l in loops.loops(g) if any(x is T for x in l.sources())) or \
                        any(v.op == "isv" and v.a[1] == "Some" and not p and v.a[0].op in ("position", "found") for v, p in d) or any(v.op == "any" and not p for v, p in d)
                    nolist = T.op == "elem" and any(v.op == "isv" and not p and v.a[0].op == "next" and v.a[0].a[0] is T.a[0] for v, p in d)
                    rep.check(c10.absent(d) or nolist or nomatch and not rank.known(g, d, both), "revise-whenever", t, "%s: %s may be left as it is without having been searched for a matching belief [%s]" % (e.where, t, q.fmt(d)))
            outs.append((e, T))
    result(rep, g, s, outs)


def path(g, a, b, L):
    seen, st = set(), [a]
    while st:
        u = st.pop()
        for s, _ in g.nodes[u].succ:
            if s == L.head or s not in L.body or s in seen or not g.nodes[s].facts:
                continue
            if s == b:
                return True
            seen.add(s)
            st.append(s)
    return False


def reach_from(g, a, b, L):
    return {a} if path(g, a, b, L) else set()


def result(rep, g, s, outs):
    n = 0
    for e in g.events("return"):
        seen = []
        for p in q.phichain(g, e.val):
            seen += [w for _, w in g.phis.get(p.id, [])]
        vals = [v for v in (seen or [e.val]) if v.op != "phi"]
        some = [v for v in vals if v.op == "agg" and v.a[1] == "Some"]
        for v in some:
            w = uncopy(v.a[3])
            alts = [uncopy(x) for x, d in q.resolve(g, w, [])]
            ok = all(x.op == "agg" and str(x.a[0]).endswith("Sentence") and any(y.op == "call" and y.a[0] == REV for y in q.subs(x)) or x.op == "vfield" for x in alts)
            n += 1
            rep.check(ok, "revise-result", "value", "%s: the result of revision is %s" % (e.where, show(v)))
        rep.check(len(some) >= 1, "revise-result", "some", "%s: revision never reports its conclusion" % e.where)
    rep.floor("revise-result", n, 1, "results of revision")


def adding(rep):
    g = rep.graph(ADD, atoms=[REVISE, STORE, "Term::calcComplexity", SUBS, COPY])
    s = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "Sentence" in g.root.fn.locals[i]["t"]][0]
    rv = [e for e in g.events("call") if e.name == REVISE]
    st = [e for e in g.events("call") if e.name == STORE]
    if not rep.check(bool(rv), "add-revises", "call", "adding a judgement does not try to revise"):
        return
    if not rep.check(bool(st), "add-stores", "call", "adding a judgement never stores it"):
        return
    for e in rv:
        rep.check(any(a is s for a in e.args), "add-revises", "arg", "%s: revised is %s" % (e.where, show(e.args[-1])))
    none = lambda d: any(v.op == "isv" and v.a[1] == "Some" and v.a[0] is rv[0].val and not p or v.op == "isv" and v.a[1] == "None" and v.a[0] is rv[0].val and p for v, p in d)
    some = lambda d: any(v.op == "isv" and v.a[1] == "Some" and v.a[0] is rv[0].val and p or v.op == "isv" and v.a[1] == "None" and v.a[0] is rv[0].val and not p for v, p in d)
    for e in st:
        rep.check(any(a is s for a in e.args), "add-stores", "arg", "%s: stored is not the judgement" % e.where)
        for d in g.facts_at(e.node):
            rep.check(rank.known(g, d, none), "add-stores", "unless-revised", "%s: a judgement is stored although it was used to revise [%s]" % (e.where, q.fmt(d)))
    for u, x, ds in rank.avoid(g, rv[0].node.id, {e.node.id for e in st}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.check(rank.known(g, d, some), "add-stores", "path", "%s: a judgement that revised nothing may not be stored [%s]" % (st[0].where, q.fmt(d)))
    # both are handed on
    fed = [v for v in g.pool.t.values() if v.op == "elem"]
    lists = []
    for l in loops.loops(g):
        for src in l.sources():
            cs = [(k, x) for k, x, _ in q.contents(g, src)]
            if any(x is s for k, x in cs):
                lists.append((l, cs))
                for w in (g.leaves(src) if src.op == "phi" else []):
                    rep.check(any(x is s for k, x, _ in q.contents(g, w)), "add-hands-on", "itself", "on some path the judgement itself is not handed on as a task")
    if not lists:  # handed on one by one
        held = [uncopy(dict(zip(x.a[2], x.a[3:]))["sentence"]) for e in g.events("call") if e.name in q.PUSH and e.args[0].op == "field" and e.args[0].a[-1] == "judgementTasks"
                for x in g.expand(e.args[1]) if x.op == "agg" and str(x.a[0]).endswith("::Task")]
        rep.check(any(x is s for x in held), "add-hands-on", "list", "the judgement is not handed on as a task")
        rep.check(any(rv[0].val in q.subs(x) for x in held), "add-hands-on", "conclusion", "the conclusion of revision is not handed on as a task")
    else:
        l, cs = lists[0]
        rep.check(any(rv[0].val in q.subs(x) for k, x in cs), "add-hands-on", "conclusion", "the conclusion of revision is not handed on as a task")
        rep.check(not [1 for u, x, d in l.early() if g.nodes[x].facts], "add-hands-on", "early", "not all sentences are handed on")


def check(rep):
    revision(rep)
    adding(rep)
