"""C08: operations over the structure of terms reach every component."""
import adt
import loops
import q
from vg import show, kids

LEVEL = "other"
RULE = ("Each recursive term operation is specialised to every term variant; the components come from the type declaration. Enumerating subterms: the "
        "term itself is delivered and the recursion is entered for every component (lists: for every element) on all paths, and nothing else is delivered. "
        "Complexity and occurrence counts: the returned sum is, in additive normal form, the specified constant plus the recursive value of every component "
        "exactly once. Replacement: the same variant is rebuilt with every component replaced. De-duplication keeps exactly the first of equal subterms.")
ASSUME = ["term equality is decided by C07", "no arithmetic overflow in counts"]
EQ = "Term::checkEqTerm"
SUBS, UNIQ, CPLX, COUNT = "Term::retSubterms", "Term::retUniqueSubterms", "Term::calcComplexity", "Term::count_occurence_subterms"
INTRO = "NarInfProcedural::matchandintro_var1"
LEAF = {"Name", "QVar", "DepVar", "IndepVar"}


def subterms(rep):
    rec = adt.recursive(rep.c, SUBS)
    rep.floor("subterms", len(rec), 1, "recursive subterm enumeration reachable from " + SUBS)
    for F in rec:
        fn = rep.c.fns[F]
        ti = [i for i in range(1, fn.argc + 1) if adt.TERM in fn.locals[i]["t"] and "Vec" not in fn.locals[i]["t"]][0]
        acc = [i for i in range(1, fn.argc + 1) if fn.locals[i]["t"].startswith("&mut") and "Vec" in fn.locals[i]["t"]]
        for var in rep.c.variants(adt.TERM):
            g, cs = adt.spec(rep, F, {ti: var}, [F, EQ])
            me = adt.agg(g, adt.param(g, ti), var)
            key = "%s:%s" % (F, var)
            if acc:
                R = adt.param(g, acc[0])
                put = [e for e in g.events("call") if e.name in q.PUSH and e.args[0] is R]
                rep.check(any(e.args[1] is me and adt.always(g, e.node) for e in put), "subterms-itself", key, "%s: a %s term is not listed among its own subterms on every path" % (F, var))
                for e in g.events("call"):
                    if e.args and e.args[0] is R and e.name not in adt.READERS and e.name in q.PUSH:
                        rep.check(e.args[1] is me, "subterms-only", key, "%s: %s is listed as a subterm" % (e.where, show(e.args[1])))
                    elif e.args and e.args[0] is R and e.name and e.name.startswith(("Vec::", "slice::")) and e.name not in adt.READERS:
                        rep.bad("subterms-only", key + e.name, "%s: the list of subterms is changed by %s" % (e.where, e.name))
                    if e.name == F:
                        rep.check(R in e.args, "subterms-delivered", key, "%s: the subterms of a component are collected elsewhere" % e.where)
                for nm, k, x in cs[ti]:
                    if k != "data":
                        r = adt.visits(g, F, x, k)
                        rep.check(r is None, "subterms-component", "%s.%s" % (key, nm), lambda: "%s: component %s of a %s term is not searched for subterms: %s" % (F, nm, var, r))
            else:
                items = q.contents_at_return(g)
                rep.check(any(k == "item" and x is me and (ev is None or adt.always(g, ev.node)) for k, x, ev in items), "subterms-itself", key,
                          "%s: a %s term is not listed among its own subterms" % (F, var))
                for nm, k, x in cs[ti]:
                    if k != "data":
                        hit = False
                        for kk, y, ev in items:
                            t = y.a[1] if y.op == "call" and y.a[0] == F else None
                            if t is not None and (t is x or k == "list" and adt.is_elem(t, x)):
                                hit = hit or ev is None or (adt.always(g, ev.node) if k == "term" else adt.covers(g, ev, x) is None)
                        rep.check(hit, "subterms-component", "%s.%s" % (key, nm), "%s: component %s of a %s term is not searched for subterms" % (F, nm, var))
    # the public function delivers the enumeration of its argument
    if SUBS not in rec:
        g = rep.graph(SUBS, rec)
        P = adt.param(g, 1)
        okk = False
        for e in g.events("call"):
            if e.name in rec and P in e.args and adt.always(g, e.node):
                for r in g.events("return"):
                    okk = okk or any(v is x for v, d in q.alts(g, r.node, r.val) for x in e.args) or r.val is e.val
        rep.check(okk, "subterms-returned", SUBS, "%s does not return the enumeration of its argument" % SUBS)
        for e in g.events("call"):
            if e.name and e.name.startswith(("Vec::", "slice::")) and e.name.split("::")[1] in ("pop", "remove", "swap_remove", "truncate", "clear", "retain", "drain", "dedup"):
                rep.bad("subterms-returned", SUBS + e.name, "%s: subterms are dropped by %s" % (e.where, e.name))


def sums(rep, F, expect, cut=None):
    """the value for each variant is expect(variant) + the sum over all components"""
    fn = rep.c.fns[F]
    for var in rep.c.variants(adt.TERM):
        g, cs = adt.spec(rep, F, {1: var}, [F, EQ])
        extra = [adt.param(g, i) for i in range(2, fn.argc + 1)]
        n = 0
        for e in g.events("return"):
            for d in g.facts_at(e.node):
                for v, dd in _noloop(g, e.val, [(x, p) for x, p in d]):
                    if cut and cut(g, v, dd, var):
                        continue
                    n += 1
                    got = adt.linear(g, v, dd)
                    want = {}
                    if expect(var):
                        want[1] = expect(var)
                    bad = []
                    for nm, k, x in cs[1]:
                        if k == "data":
                            continue
                        hit = [key for key in got if (k == "term" and not isinstance(key, (int, tuple)) and adt._rec(key, F, extra) is x) or
                               (k == "list" and isinstance(key, tuple) and key[1] is x and adt._rec(key[2], F, extra) is not None and adt.is_elem(adt._rec(key[2], F, extra), x))]
                        if len(hit) != 1 or got[hit[0]] != 1:
                            bad.append("component %s is counted %s times" % (nm, sum(got[h] for h in hit)))
                        for h in hit:
                            got.pop(h)
                    if got != want:
                        bad.append("otherwise %s is counted, not %s" % ({(k if isinstance(k, int) else show(k) if not isinstance(k, tuple) else "sum"): c for k, c in got.items()}, want))
                    rep.check(not bad, "sum", "%s:%s" % (F, var), "%s: value of a %s term: %s [%s]" % (e.where, var, "; ".join(bad), q.fmt(dd)))
        rep.check(n > 0, "sum-returns", "%s:%s" % (F, var), "%s never returns a sum for a %s term" % (F, var))


def _noloop(g, v, d, depth=6):
    """resolve phis other than loop accumulators"""
    if v.op == "phi" and v.id in g.phis and v.a[-1][1] not in g.loops and depth:
        b = [f.a[1] for f, p in d if f.op == "bind" and f.a[0] is v]
        out = []
        for pred, w in g.phis[v.id]:
            if b and w is not b[0]:
                continue
            for dd in q._fs(g, g.OUT.get(pred) or []):
                if q.compatible(d, dd):
                    out += _noloop(g, w, q.merge(d, dd), depth - 1)
        return out
    return [(v, d)]


def complexity(rep):
    rep.need(CPLX)
    sums(rep, CPLX, lambda var: 1 if var in LEAF or var in ("Stmt", "Neg") else 0)


def occurrences(rep):
    rep.need(COUNT)

    def me_fact(g, d, var):
        me = adt.agg(g, adt.param(g, 1), var)
        return adt.same_fact(d, me, adt.param(g, 2), {EQ})

    def cut(g, v, d, var):
        f = me_fact(g, d, var)
        if f is True:
            rep.check(loops.ival(v) == 1, "count-itself", "%s:%s" % (COUNT, var), "%s: a %s term equal to the searched one is counted %s times" % (COUNT, var, show(v)))
            return True
        rep.check(f is False, "count-itself", "%s:%s:cmp" % (COUNT, var), "%s: a %s term is not compared with the searched one first" % (COUNT, var))
        return False
    sums(rep, COUNT, lambda var: 0, cut)


def unique(rep):
    g = rep.graph(UNIQ, [SUBS, EQ])
    P = adt.param(g, 1)
    rets = [v for e in g.events("return") for v, d in q.alts(g, e.node, e.val)]
    S = None
    for e in g.events("call"):
        if e.name == SUBS:
            rep.check(e.args[0] is P, "unique-source", UNIQ, "%s: subterms of %s are listed" % (e.where, show(e.args[0])))
            S = e.val
    if not rep.check(S is not None, "unique-source", UNIQ + ":none", "%s does not enumerate the subterms of its argument" % UNIQ):
        return
    for R in {r.id: r for r in rets}.values():
        adds = [e for e in g.events("call") if e.name in q.PUSH and e.args[0] is R]
        drops = [e for e in g.events("call") if e.args and e.args[0] is R and e.name in ("Vec::pop", "Vec::remove", "Vec::swap_remove", "Vec::truncate", "Vec::clear", "Vec::retain", "Vec::drain")]
        rep.check(not drops, "unique-keeps", UNIQ, "%s: distinct subterms are dropped again" % (drops[0].where if drops else ""))
        for e in adds:
            rep.check(adt.is_elem(e.args[1], S), "unique-only-subterms", UNIQ, "%s: %s is listed, which is no subterm" % (e.where, show(e.args[1])))
        if not rep.check(bool(adds), "unique-adds", UNIQ, "%s: nothing is put into the result" % UNIQ):
            continue
        ls = [l for l in loops.loops(g) if S in l.sources()]
        if not rep.check(bool(ls), "unique-all", UNIQ, "%s does not go through all subterms" % UNIQ):
            continue
        outer = ls[0]
        rep.check(not [1 for u, s, d in outer.early() if u in outer.own], "unique-all", UNIQ + ":early", "%s: the search for distinct subterms stops early" % UNIQ)

        # skipped only if an equal one was found, added only if none was found
        def eqf(d):
            r = None
            for v, p in d:
                c = v.a[2] if v.op in ("any", "all") else v
                if v.op == "all" and c.op == "un" and c.a[0] == "Not":
                    c, p = c.a[1], not p
                if c.op == "call" and c.a[0] == EQ or c.op == "bin" and c.a[0] == "Eq" and any(adt.is_elem(k, S) for k in kids(c)):
                    ks = kids(c)[:2]
                    if any(adt.is_elem(k, S) for k in ks) and any(adt.is_elem(k, R) for k in ks):
                        if p:
                            return True
                        r = False
                if v.op == "call" and v.a[0] == "slice::contains" and v.a[1] is R:
                    if p:
                        return True
                    r = False
            return r
        for v in list(g.pool.t.values()):
            if v.op in ("any", "all") and any(adt.is_elem(x, R) for x in q.subs(v.a[2])):
                rep.check(loops.whole(v.a[0]) is R, "unique-once", UNIQ + ":cut", "%s: a subterm is only compared with a part of what is already listed: %s" % (UNIQ, show(v)))
        for e in adds:
            for d in g.facts_at(e.node):
                rep.check(eqf(d) is not True, "unique-once", UNIQ, "%s: a subterm is listed although an equal one is already listed" % e.where)
            told = all(eqf(d) is False for d in g.facts_at(e.node))
            for l in loops.loops(g):
                if R in l.sources():
                    ds = [d for u, d in l.latches()]
                    told = told or bool(ds) and all(eqf(d) is not None for d in ds)
            rep.check(told, "unique-once", UNIQ + ":cmp", "%s: a subterm is listed without being compared with all which are already listed" % e.where)
            for u, t, ds in adt.avoid_edges(g, outer, e.node.id):
                for d in ds:
                    okk = eqf(d) is True
                    for v, p in d:
                        if v.op == "phi" and g.is_bool(v):
                            fl = adt.flag_edges(g, v, p)
                            okk = okk or bool(fl) and all(eqf(x) is True for x in fl)
                    rep.check(okk, "unique-skip", UNIQ, "%s: a subterm may be left out although no equal one is listed [%s]" % (UNIQ, q.fmt(d)))


def replacement(rep):
    rec = [f for f in adt.recursive(rep.c, INTRO) if f not in (COUNT, EQ)]
    rec = [f for f in rec if adt.TERM == rep.c.fns[f].locals[0]["t"]]
    rep.floor("replace", len(rec), 1, "recursive replacement reachable from " + INTRO)
    for F in rec:
        fn = rep.c.fns[F]
        for var in rep.c.variants(adt.TERM):
            g, cs = adt.spec(rep, F, {1: var}, [F, EQ])
            me = adt.agg(g, adt.param(g, 1), var)
            P = [adt.param(g, i) for i in range(2, fn.argc + 1)]
            n = 0
            for e in g.events("return"):
                for v, d in q.alts(g, e.node, e.val):
                    f = [adt.same_fact(d, me, p, {EQ}) for p in P]
                    if True in f:
                        n += 1
                        rep.check(v in P and P.index(v) != f.index(True), "replace-itself", "%s:%s" % (F, var), "%s: a term equal to the replaced one becomes %s" % (e.where, show(v)))
                        continue
                    rep.check(False in f, "replace-itself", "%s:%s:cmp" % (F, var), "%s: a %s term is not compared with the replaced one" % (e.where, var))
                    if var in LEAF:
                        rep.check(v is me, "replace-component", "%s:%s" % (F, var), "%s: an unrelated %s becomes %s" % (e.where, var, show(v)))
                    else:
                        adt.rebuilt(rep, "replace", F, F, var, g, cs[1], v, e, P)
            rep.check(n > 0, "replace-itself", "%s:%s:none" % (F, var), "%s: a %s term is never replaced" % (F, var))


def builders(rep):
    """term construction helpers put their arguments into the named places"""
    def lst(g, v, want):
        it = q.contents(g, v)
        return [x for k, x, _ in it if k == "item"] == want
    spec = {"TermApi::s": ("Stmt", None), "TermApi::p2": ("Prod", 2), "TermApi::p3": ("Prod", 3), "TermApi::p": ("Prod", "all"),
            "TermApi::seq": ("Seq", "all"), "TermApi::conj": ("Conj", "all")}
    for f, (var, n) in spec.items():
        if f not in rep.c.fns:
            continue
        g = rep.graph(f)
        P = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1)]
        for e in g.events("return"):
            for v, d in q.alts(g, e.node, e.val):
                okk = v.op == "agg" and v.a[1] == var
                if okk and n is None:
                    okk = list(v.a[3:]) == P
                elif okk and n == "all":
                    m, why = adt.list_map(g, v.a[3], P[0])
                    okk = m == "same" or m is not None and adt.is_elem(m, P[0])
                elif okk:
                    okk = lst(g, v.a[3], P)
                rep.check(okk, "build", f, "%s: builds %s instead of a %s of its arguments in order" % (e.where, show(v), var))
    D, E = "TermUtils::decodeOp", "TermUtils::encodeOp"
    if E in rep.c.fns:
        g = rep.graph(E)
        for e in g.events("return"):
            for v, d in q.alts(g, e.node, e.val):
                okk = v.op == "agg" and v.a[1] == "Stmt" and v.a[3].op == "agg" and v.a[3].a[1] == "INH" and v.a[5].op == "agg" and v.a[5].a[1] == "Name" and v.a[5].a[3] is adt.param(g, 2)
                if okk:
                    s = v.a[4]
                    okk = s.op == "agg" and s.a[1] == "SetExt"
                    it = [x for _, x, _ in q.contents(g, s.a[3])] if okk else []
                    okk = len(it) == 1 and it[0].op == "agg" and it[0].a[1] == "Prod"
                    if okk:
                        m, why = adt.list_map(g, it[0].a[3], adt.param(g, 1))
                        okk = m == "same" or m is not None and adt.is_elem(m, adt.param(g, 1))
                rep.check(okk, "op-encode", E, "%s: an operation call is encoded as %s" % (e.where, show(v)))
    g = rep.graph(D)
    P = adt.param(g, 1)
    subj, pred = g.vfield(P, "Stmt", "1"), g.vfield(P, "Stmt", "2")
    lst_ = g.vfield(subj, "SetExt", "0")
    some = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            if not (v.op == "agg" and v.a[1] == "Some"):
                continue
            some += 1
            t = v.a[3]
            okk = t.op == "agg" and len(t.a) >= 5
            okk = okk and q.isv(d, P, "Stmt") is True and q.isv(d, g.vfield(P, "Stmt", "0"), "INH") is True and q.isv(d, pred, "Name") is True and q.isv(d, subj, "SetExt") is True
            if okk:
                okk = t.a[4] is g.vfield(pred, "Name", "0")
                one = any(x.op == "bin" and x.a[0] == "Eq" and p and any(loops.len_of(y) is lst_ for y in x.a[1:3]) and any(loops.ival(y) == 1 for y in x.a[1:3]) for x, p in d)
                prods = [x.a[0] for x, p in d if p and x.op == "isv" and x.a[1] == "Prod" and loops.element_of(x.a[0]) is lst_ and not (x.a[0].op == "idx" and loops.ival(x.a[0].a[1]) not in (0, None)) and not (x.a[0].op == "cidx" and x.a[0].a[1] != (1 if x.a[0].a[2] else 0))]
                okk = okk and one and bool(prods)
                if okk:
                    A = g.vfield(prods[0], "Prod", "0")
                    m, why = adt.list_map(g, t.a[3], A)
                    okk = m == "same" or m is not None and adt.is_elem(m, A)
            rep.check(okk, "op-decode", D, "%s: a term that is not <{(a * b * ..)} --> ^op> is decoded as an operation, or with other arguments: %s [%s]" % (e.where, show(v), q.fmt(d)))
    rep.check(some > 0, "op-decode", D + ":none", "operations are never decoded")


def questions(rep):
    """a condition becomes a question: its variables become question variables, different ones for different ones; all else stays"""
    seeds = [f for f in rep.c.fns if f.startswith("NarGoalSystem::")]
    rec = sorted({f for x in seeds for f in adt.recursive(rep.c, x) if f.startswith("NarGoalSystem::") and rep.c.fns[f].locals[0]["t"] == adt.TERM})
    rep.floor("question", len(rec), 1, "translation of conditions to questions")
    for F in rec:
        fn = rep.c.fns[F]
        kinds = {}
        for var in rep.c.variants(adt.TERM):
            g, cs = adt.spec(rep, F, {1: var}, [F])
            me = adt.agg(g, adt.param(g, 1), var)
            P = [adt.param(g, i) for i in range(2, fn.argc + 1)]
            for e in g.events("return"):
                for v, d in q.alts(g, e.node, e.val):
                    if var == "Name":
                        rep.check(v is me, "question-component", "%s:%s" % (F, var), "%s: a name becomes %s" % (e.where, show(v)))
                    elif var in LEAF:
                        nm = cs[1][0][2]
                        ok = v.op == "agg" and v.a[1] == "QVar" and any(x is nm for x in q.subs(v.a[3]))
                        rep.check(ok, "question-variable", "%s:%s" % (F, var), "%s: a %s becomes %s, not a question variable of its name" % (e.where, var, show(v)))
                        if ok:
                            kinds.setdefault(var, set()).add(tuple(sorted(str(x.a[1]) for x in q.subs(v.a[3]) if x.op == "const")))
                    else:
                        adt.rebuilt(rep, "question", F, F, var, g, cs[1], v, e, P)
        ks = sorted(kinds)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                rep.check(not kinds[a] & kinds[b], "question-variable", "%s:%s-%s" % (F, a, b), "%s: a %s and a %s of the same name become the same question variable" % (F, a, b))


def check(rep):
    questions(rep)
    subterms(rep)
    unique(rep)
    complexity(rep)
    occurrences(rep)
    replacement(rep)
    builders(rep)
