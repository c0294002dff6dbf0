"""C19: goals: kept once each, found again, derived from, satisfied by events."""
import adt
import best
import c10
import loops
import q
import rank
from c15 import call, payload
from c12 import field_of
from c13 import is_field
from c22 import fnum
from c24 import walk
from vg import show, kids, V

LEVEL = "other"
RULE = ("Adding: an entry with the given goal, evidence, time and depth and full desirability is stored unless a complete scan found a goal with equal term and same evidence base; ops in the active set, others in the batch of their depth (the last batch for deeper ones), in the group of their term, and in the index by term. "
        "The list of all goals covers batches x groups x entries and the active set. Deriving: every rule whose consequence equals the term of the sampled goal (or its detachment) gives a conclusion with that rule as evidence and depth one greater, and every conclusion is added. "
        "An event makes exactly the goals with its term undesired. Queries return exactly the rules / a goal with the term asked for. Sampling returns a stored goal with its own depth.")
ASSUME = ["checkEqTerm is decided by C07, checkSame by C03, infGoalDetach/infGoalBelief by C02/C05, ret_beliefs_by_terms_nonunique by C10, decodeOp by C08", "std HashMap semantics"]
G = "NarGoalSystem::"
ADD, SAMPLE, ENTRIES, BYC, BYA, QUERY, OCC, INFER = [G + x for x in ("addEntry", "sample", "retEntries", "query_by_consequence", "query_by_antecedent", "query", "event_occurred", "sampleAndInference")]
EQ, SAME, DEC = "Term::checkEqTerm", "NarStamp::checkSame", "TermUtils::decodeOp"
DET, BEL, FIND, BIN = "NarInfProcedural::infGoalDetach", "NarInfProcedural::infGoalBelief", "NarMem::ret_beliefs_by_terms_nonunique", "BinSearch::binSearch"
STR = ["Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"]


def known(g, d, f):
    return rank.known(g, d, lambda x: best.has(x, f))


def facts(g, e):
    return q._fs(g, g.nodes[e.node.id].facts)


def sub(v, name):
    return any(is_field(x, name) for x in q.subs(v))


def iseq(v, p, a, b):
    """the fact says a(x) and b(y) are equal terms"""
    if not p or not (v.op == "call" and v.a[0] == EQ or v.op == "bin" and v.a[0] == "Eq"):
        return False
    x, y = kids(v)[:2]
    return a(x) and b(y) or a(y) and b(x)


def element(v):
    return loops.element_of(v) is not None or v.op in ("idx", "cidx")


# ---------------------------------------------------------------- adding
def adding(rep):
    g = rep.graph(ADD, atoms=[DEC, EQ, SAME, G + "convProcTermToQaTerm"] + STR)
    P = {adt.param(g, i).a[1]: adt.param(g, i) for i in range(1, g.root.fn.argc + 1)}
    ps = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1)]
    gs, _, t, goal, evi, depth = ps[:6]
    term, stamp = g.field(goal, "term"), g.field(goal, "stamp")
    isE = lambda v: v.op == "agg" and v.a[0] == G + "Entry" or v.op == "upd" and isE(v.a[0])
    base = lambda v: base(v.a[0]) if v.op == "upd" else v
    A, GR, N, I = [], [], [], []
    ents = []
    live = [e for e in g.events("call") if g.nodes[e.node.id].facts]
    for e in live:
        if e.name in q.PUSH:
            c, x = e.args[0], e.args[1]
            if isE(x):
                (A if is_field(c, "set") and sub(c, "activeSet") else GR if is_field(c, "entries") and sub(c, "groups") else I if sub(c, "entriesByTerm") else []).append(e)
                ents.append((e, x))
            elif x.op == "agg" and x.a[0] == G + "EntryFoldedByTerm":
                its = [v for k, v, _ in q.contents(g, field_of(x, "entries"))]
                ok = len(its) == 1 and isE(its[0])
                rep.check(ok, "add", "group-content", "%s: the new group holds %s" % (e.where, [show(v) for v in its]))
                rep.check(field_of(x, "term") is term, "add", "group-term", "%s: the new group has the term %s" % (e.where, show(field_of(x, "term"))))
                rep.check(is_field(c, "groups"), "add", "group-list", "%s: the new group is put into %s" % (e.where, show(c)))
                N.append(e)
                ents += [(e, v) for v in its if isE(v)]
        elif e.name == "HashMap::insert" and sub(e.args[0], "entriesByTerm"):
            its = [v for k, v, _ in q.contents(g, e.args[2])]
            rep.check(any(isE(v) for v in its), "add", "index-content", "%s: the index gets %s" % (e.where, [show(v) for v in its]))
            rep.check(e.args[1] is term, "add", "index-key", "%s: the goal is indexed under %s" % (e.where, show(e.args[1])))
            for d in facts(g, e):
                rep.check(c10.absent(d) or any(k == "all" for k, v, _ in q.contents(g, e.args[2])), "add", "index-keeps", "%s: goals already in the index are lost [%s]" % (e.where, q.fmt(d)))
            I.append(e)
        elif "HashMap::entry" in e.name and sub(e.args[0], "entriesByTerm"):
            rep.check(e.args[1] is term, "add", "index-key", "%s: the goal is indexed under %s" % (e.where, show(e.args[1])))
    if not all([rep.check(bool(x), "add", "exists-" + n, "goals are never stored in the %s" % n) for x, n in ((A, "active set"), (GR + N, "batches"), (I, "index"))]):
        return
    rep.floor("add", len(ents), 3, "places where a goal is stored")
    for e, x in ents:
        b = base(x)
        for k, w in (("sentence", goal), ("evidence", evi), ("createTime", t), ("depth", depth)):
            rep.check(field_of(b, k) is w, "add", "entry-" + k, "%s: %s of the stored goal is %s" % (e.where, k, show(field_of(b, k))))
        des = field_of(b, "desirability")
        rep.check(des.op == "const" and float(des.a[1]) == 1.0, "add", "entry-desirability", "%s: a new goal has the desirability %s" % (e.where, show(des)))
    # where
    op = lambda v, p: best.is_some(v, p, lambda o: call(o, DEC) and o.a[1] is term)
    noop = lambda v, p: best.is_none(v, p, lambda o: call(o, DEC) and o.a[1] is term)
    for e in A:
        for d in facts(g, e):
            rep.check(known(g, d, op), "add", "active-op", "%s: a goal that is no op may become active [%s]" % (e.where, q.fmt(d)))
    for e in GR + N:
        for d in facts(g, e):
            rep.check(known(g, d, noop), "add", "batch-noop", "%s: an op may be put into a batch [%s]" % (e.where, q.fmt(d)))
    # duplicates
    of = lambda v, f: is_field(v, f) and is_field(v.a[0], "sentence") and element(v.a[0].a[0]) and (sub(v, "entriesByTerm") or sub(v, "activeSet"))
    same = lambda v, p: p and v.op == "call" and v.a[0] == SAME and any(x is stamp for x in kids(v)) and any(of(x, "stamp") for x in kids(v))
    eqt = lambda v, p: iseq(v, p, lambda x: x is term, lambda x: of(x, "term"))
    dup = lambda d: best.has(d, same) and best.has(d, eqt)
    stores = {e.node.id for e in A + GR + N}
    skipped = 0
    for u, x, ds in rank.avoid(g, 0, stores, {r.id for r in g.root.retnodes}, panics=False):
        for d in ds:
            skipped += 1
            rep.check(rank.known(g, d, dup), "add", "stored", "a goal may be dropped though the same goal is not known [%s]" % q.fmt(d))
    rep.check(skipped > 0, "add", "once", "the same goal is stored again and again")
    scans(rep, g, A, lambda v: is_field(v, "set") and sub(v, "activeSet"), dup, same, "the active set")
    scans(rep, g, GR + N, lambda v: sub(v, "entriesByTerm") and not sub(v, "sentence"), dup, same, "the index")
    for e in A + GR + N:
        for d in facts(g, e):
            rep.check(not rank.known(g, d, dup), "add", "only-new", "%s: a goal is stored though the same goal was found [%s]" % (e.where, q.fmt(d)))
    # the index
    for e in GR + N:
        before = not rank.avoid(g, 0, {i.node.id for i in I}, {e.node.id}, panics=False)
        for u, x, ds in [] if before else rank.avoid(g, e.node.id, {i.node.id for i in I}, {r.id for r in g.root.retnodes}, panics=False):
            for d in ds:
                rep.check(rank.known(g, d, dup), "add", "indexed", "%s: a stored goal may stay out of the index, so that it is stored again [%s]" % (e.where, q.fmt(d)))
    # depth and group
    for e in GR + N:
        b = [x for x in q.subs(e.args[0]) if x.op == "idx" and is_field(x.a[0], "batchesByDepth")]
        if not rep.check(bool(b), "add", "batch", "%s: the batch is %s" % (e.where, show(e.args[0]))):
            continue
        idx = rank.uncast(b[0].a[1])
        last = lambda v: adt.linear(g, rank.uncast(v)) in ({g.field(gs, "nMaxDepth"): 1, None: -1}, {g.field(gs, "nMaxDepth"): 1, 1: -1}) or minus1(g, v, gs)
        if idx.op == "call" and idx.a[0] in ("Ord::min", "cmp::min"):
            ks = [rank.uncast(k) for k in kids(idx)]
            rep.check(any(any(x is depth for x in q.subs(k)) for k in ks) and any(last(k) for k in ks), "add", "batch-depth", "%s: the batch is number %s" % (e.where, show(idx)))
        else:
            for v, ds in q.alts(g, e.node, idx):
                rep.check(rank.uncast(v) is depth or last(v) or idx.op == "call" and idx.a[0] not in ("Ord::max", "cmp::max"), "add", "batch-depth", "%s: the batch is number %s" % (e.where, show(v)))
            rep.check(any(x is depth for x in q.subs(idx)) or any(rank.uncast(v) is depth for v, _ in q.alts(g, e.node, idx)), "add", "batch-depth", "%s: the batch is number %s" % (e.where, show(idx)))
    grp = lambda v: is_field(v, "term") and element(v.a[0]) and sub(v, "groups")
    geq = lambda v, p: iseq(v, p, lambda x: x is term, grp)
    for e in GR:
        for d in facts(g, e):
            rep.check(known(g, d, geq), "add", "same-group", "%s: a goal may be put into the group of another term [%s]" % (e.where, q.fmt(d)))
    for e in N:
        for d in facts(g, e):
            rep.check(not known(g, d, geq), "add", "new-group", "%s: a second group for a term may be made [%s]" % (e.where, q.fmt(d)))
    if GR:
        scans(rep, g, N, lambda v: is_field(v, "groups"), lambda d: best.has(d, geq), lambda v, p: v.op == "call" and v.a[0] == EQ and any(grp(x) for x in kids(v)), "the groups")
    acc(rep, g, GR, N)


def minus1(g, v, gs):
    v = rank.uncast(v)
    return v.op == "bin" and v.a[0] == "Sub" and loops.ival(v.a[2]) == 1 and (v.a[1] is g.field(gs, "nMaxDepth") or loops.len_of(v.a[1]) is not None)


def scans(rep, g, es, isC, dup, about, what):
    """before the events the whole of the collection is looked through"""
    heads = set()
    for l in loops.loops(g):
        if any(isC(x) for x in l.sources()) and any(x.node.id in l.body and x.val is not None and about(x.val, True) for x in g.events("call")):
            ok = True
            for u, x, d in l.early():
                if g.nodes[x].facts and rank.returns(g, x):
                    ok &= rep.check(rank.known(g, d, dup), "add", "scan-early", "the search in %s ends without having found it [%s]" % (what, q.fmt(d)))
            heads.add(l.head)
    for v in rank.scan_values(g):
        if any(x.op == "call" and about(x, True) for w in c10.truth_vals(g, v) for x in q.subs(w)):
            w = loops.whole(v.a[0])
            if w is not None and not isC(w) or w is None and not isC(rank.strip(v.a[0])[0]):
                continue
            if rep.check(w is not None, "add", "scan-part", "only a part of %s is searched" % what):
                for e in g.events("call"):
                    if e.val is v or e.val is not None and any(x is v for x in q.subs(e.val)):
                        heads.add(e.node.id)
    if not rep.check(bool(heads), "add", "scan", "%s is not searched for the same" % what):
        return
    hit = [(u, x) for l in loops.loops(g) if l.head in heads for u, x, d in l.early() if g.nodes[x].facts]
    for n in g.nodes:
        for s, label in n.succ if n.facts else ():
            ef = g.edge_facts(n, label)
            if g.nodes[s].facts and ef and any(any(y in rank.scan_values(g) for y in q.subs(v)) and rank.known(g, [(v, p)], dup) for v, p in ef):
                hit.append((n.id, s))
    after = [rank.feasible(g, u, x) for u, x in hit]
    for e in es:
        rep.check(not any(e.node.id in s for s in after), "add", "despite", "%s: it may happen though the same was found in %s" % (e.where, what))
        if not hit:
            for d in facts(g, e):
                rep.check(any(rank.known(g, [(v, not p)], dup) for v, p in d), "add", "despite", "%s: it may happen though the same was found in %s [%s]" % (e.where, what, q.fmt(d)))
        for u, x, ds in rank.avoid(g, 0, heads, {e.node.id}, panics=False):
            for d in ds:
                rep.check(c10.absent(d), "add", "scan-skipped", "%s: %s may not be searched before [%s]" % (e.where, what, q.fmt(d)))


def acc(rep, g, GR, N):
    """accumulated desirabilities: 0 for the first of a group, last + desirability of the last for others"""
    for e in g.events("lwrite"):
        m = e.args[0] if e.args else None
        if m is None or m.op != "mutref" or tuple(m.a[2]) != ("accDesirability",) or not g.nodes[e.node.id].facts:
            continue
        v = e.args[1]
        if v.op == "const":
            rep.check(float(v.a[1]) == 0.0, "add", "acc", "%s: the accumulated desirability of the first of a group is %s" % (e.where, show(v)))
        else:
            ks = {x.a[-1] for x in q.subs(v) if x.op == "field"}
            lastof = [x for x in q.subs(v) if is_field(x, "accDesirability") or is_field(x, "desirability")]
            es = {x.a[0] for x in lastof}
            rep.check(v.op == "bin" and v.a[0] == "Add" and {"accDesirability", "desirability"} <= ks and len(es) == 1 and all(is_last(x) for x in es), "add", "acc", "%s: the accumulated desirability is %s" % (e.where, show(v)))


def is_last(v):
    if v.op == "idx":
        i = v.a[1]
        return i.op == "bin" and i.a[0] == "Sub" and loops.len_of(i.a[1]) is v.a[0] and loops.ival(i.a[2]) == 1
    if v.op == "cidx":
        return True
    return any(x.op == "call" and x.a[0] == "slice::last" for x in q.subs(v)) or v.op != "idx"


# ---------------------------------------------------------------- all goals
def all_goals(rep):
    g = rep.graph(ENTRIES)
    gs = adt.param(g, 1)
    es = [e for e in g.events("call") if (e.name in q.PUSH or e.name in q.EXTEND or e.name == "Vec::append") and g.nodes[e.node.id].facts]
    batches, act = g.field(gs, "batchesByDepth"), g.field(g.field(gs, "activeSet"), "set")
    isB = lambda v: v is batches
    isG = lambda v: is_field(v, "groups") and loops.element_of(v.a[0]) is batches
    isN = lambda v: is_field(v, "entries") and loops.element_of(v.a[0]) is not None and isG(loops.element_of(v.a[0]))
    ret = list(q.returned(g))
    for nm, chain in (("batches", [isN, isG, isB]), ("active set", [lambda v: v is act])):
        done = False
        for v in ret:
            if covers(v, chain):
                done = True
        mine = [e for e in es if e.name in q.PUSH and loops.element_of(e.args[1]) is not None and chain[0](loops.whole(loops.element_of(e.args[1])) or loops.element_of(e.args[1]))]
        whole = [e for e in es if e.name not in q.PUSH and covers(e.args[1], chain)]
        lev = {e.node.id: levels(e.args[1], chain) for e in es if e.name not in q.PUSH}
        part = [e for e in es if lev.get(e.node.id)]
        k = min([lev[e.node.id] for e in part] or [1])
        if whole:
            done = not rank.avoid(g, 0, {e.node.id for e in whole}, {r.id for r in g.root.retnodes}, panics=False)
        elif part or mine:
            cur, todo, rs = (part, chain[k:], []) if part else (mine, chain, [])
            for f in todo:
                r = rank.each(g, cur, f)
                if not r:
                    rs.append("not all are visited")
                    break
                rs += [x for _, y in r for x in y]
                cur = [rank.At(g, nd) for nd, _ in r]
            done = True
            for x in rs:
                rep.bad("all-goals", nm, "goals of the %s may be missing from the list of all goals: %s" % (nm, x))
            if not rs:
                rep.check(not rank.avoid(g, 0, {e.node.id for e in cur}, {r.id for r in g.root.retnodes}, panics=False), "all-goals", nm + "-always", "goals of the %s may be missing from the list of all goals" % nm)
        rep.check(done, "all-goals", nm, "goals of the %s are missing from the list of all goals" % nm)
    rep.floor("all-goals", 2, 2, "kinds of goals")


def covers(v, chain):
    """v (a lazily built sequence) contains the elements of the collections chain describes"""
    if v.op == "call" and v.a[0] == "Iterator::chain":
        return any(covers(k, chain) for k in kids(v))
    w = loops.whole(v)
    if w is not None and w is not v:
        return covers(w, chain)
    if v.op == "mapped" and v.a[-1] in ("Iterator::flat_map",):
        return covers_inner(v, chain)
    return chain[0](v) and len(chain) == 1


def levels(v, chain):
    """how many levels of chain, from the innermost, the sequence v runs over"""
    while v.op == "call" and v.a[0] in loops.FULLVIEW or v.op == "mapped" and v.a[-1] == "Iterator::map":
        v = v.a[1] if v.op == "call" else v.a[0]
    if v.op == "mapped" and v.a[-1] == "Iterator::flat_map":
        k = levels(v.a[2], chain)
        return k and k < len(chain) and levels(v.a[0], chain[k:]) and k + levels(v.a[0], chain[k:]) or 0
    w = loops.whole(v)
    return 1 if w is not None and chain[0](w) else 0


def covers_inner(v, chain):
    inner = loops.whole(v.a[2]) or v.a[2]
    if inner.op == "mapped" and inner.a[-1] == "Iterator::flat_map":
        inner = loops.whole(inner.a[2]) or inner.a[2]
    while inner.op == "mapped":
        inner = loops.whole(inner.a[0]) or inner.a[0]
    return chain[0](inner)


# ---------------------------------------------------------------- deriving
def opt_of(g, v):
    """the option v is a copy of"""
    if v.op == "phi":
        ws = [w for _, w in rank.settings(g, v)]
        src = {payload(w.a[3]) for w in ws if w.op == "agg" and w.a[1] == "Some"}
        if len(src) == 1 and None not in src and all(w.op == "agg" and w.a[1] in ("Some", "None") or w in src for w in ws):
            return src.pop()
    if v.op == "optmap" and v.a[1] is g.vfield(v.a[0], "Some", "0"):
        return v.a[0]
    return v


def taken(v):
    """the collection v was taken from"""
    c = loops.element_of(v)
    if c is not None:
        w = loops.unfilter(c)[0]
        return w if w is not None else c
    if v.op == "call" and v.a[0] in ("Vec::swap_remove", "Vec::remove"):
        return v.a[1]
    p = payload(v)
    if p is not None and p.op == "call" and p.a[0] in ("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back"):
        return p.a[1]
    if v.op == "idx":
        return v.a[0]
    return None


def proj(v, el):
    """v as a function of el, or None if it does not depend on it"""
    return any(x is el for x in q.subs(v))


class Derive:
    def __init__(self, rep, g):
        self.rep, self.g = rep, g
        self.seen = set()
        self.lists = {}                         # list -> where it goes on to
        self.sam = [e.val for e in g.events("call") if e.name == SAMPLE]

    def items(self, c):
        """values put into list c"""
        g = self.g
        out = []
        for k, v, e in q.contents(g, c):
            if k == "item":
                out.append(v)
            elif v.op == "mapped":
                out.append(v.a[2])
            else:
                w = loops.unfilter(v)[0]
                out.append(g.elem(w if w is not None else v, "*"))
        if c.op == "mapped":
            out.append(c.a[2])
        return out

    def roots(self, v):
        return [x for x in q.subs(v) if taken(x) is not None and (taken(x).op in ("new", "phi", "mapped", "agg"))]

    def rec(self, goal, evi, depth, where):
        """goal (with evi) has the depth it should have"""
        g, rep = self.g, self.rep
        key = (goal.id, evi.id if evi is not None else -1, depth.id)
        if key in self.seen:
            return
        self.seen.add(key)
        if len(self.seen) > 200:
            raise Exception("derivation too deep")
        p = payload(goal)
        if goal.op == "field" and any(payload(goal.a[0]) is s for s in self.sam):
            rep.check(evi is None and is_field(goal, "0"), "derive", "sampled", "%s: %s is taken as a derived goal" % (where, show(goal)))
            rep.check(depth is g.field(goal.a[0], "1"), "derive", "sampled-depth", "%s: the depth of the sampled goal is %s" % (where, show(depth)))
            return
        if p is not None and p.op == "call" and p.a[0] in (DET, BEL):
            src = p.a[1]
            lin = adt.linear(g, depth)
            base = [k for k in (lin or {}) if isinstance(k, V)]
            const = sum(v for k, v in (lin or {}).items() if not isinstance(k, V))
            if rep.check(len(base) == 1 and lin[base[0]] == 1 and const == 1, "derive", "depth", "%s: the depth of a derived goal is %s" % (where, show(depth))):
                self.rec(src, None, base[0], where)
            if p.a[0] == BEL:
                b = p.a[2]
                c = taken(b)
                rep.check(c is not None and call(c, BYC) and c.a[1] is g.field(src, "term"), "derive", "rule", "%s: the goal is derived with %s" % (where, show(b)))
                if evi is not None:
                    rep.check(evi.op == "agg" and evi.a[1] == "Some" and evi.a[3] is b, "derive", "evidence", "%s: the evidence of the derived goal is %s" % (where, show(evi)))
            elif evi is not None:
                rep.check(evi.op == "agg" and evi.a[1] == "None", "derive", "detach-evidence", "%s: the evidence of a detached goal is %s" % (where, show(evi)))
            return
        r = best.root(goal)
        if r.op == "phi" and r.id in g.phis:
            for _, w in rank.settings(g, r):
                if w.op == "agg" and w.a[1] == "None":
                    continue
                self.rec(*[self.simp(q.subst(g, v, r, w)) if v is not None else None for v in (goal, evi, depth)], where)
            return
        rs = self.roots(goal)
        if not rep.check(bool(rs), "derive", "origin", "%s: a goal %s comes from elsewhere" % (where, show(goal))):
            return
        el = max(rs, key=lambda x: x.id)
        c = taken(el)
        if evi is not None:
            evi = opt_of(g, evi)
        for x in self.items(c):
            r = [q.subst(g, v, el, x) if v is not None else None for v in (goal, evi, depth)]
            r = [self.simp(v) if v is not None else None for v in r]
            if not rep.check(proj(depth, el) and (evi is None or proj(evi, el)), "derive", "together", "%s: goal %s, evidence %s and depth %s do not belong together" % (where, show(goal), show(evi) if evi is not None else "-", show(depth))):
                return
            self.rec(r[0], r[1], r[2], where)

    def simp(self, v):
        g = self.g
        if v.op == "field":
            return g.field(self.simp(v.a[0]), v.a[1])
        if v.op == "vfield":
            return g.vfield(self.simp(v.a[0]), v.a[1], v.a[2])
        return v


def deriving(rep):
    g = rep.graph(INFER, atoms=[ADD, SAMPLE, DET, BEL, BYC] + STR)
    gs, mem2, t, pm = [adt.param(g, i) for i in (1, 2, 3, 4)]
    adds = [e for e in g.events("call") if e.name == ADD and g.nodes[e.node.id].facts]
    sam = [e for e in g.events("call") if e.name == SAMPLE and g.nodes[e.node.id].facts]
    if not rep.check(bool(adds), "derive", "adds", "derived goals are not added") or not rep.check(len(sam) == 1, "derive", "samples", "goals are sampled %d times" % len(sam)):
        return
    D = Derive(rep, g)
    for e in adds:
        rep.check(e.args[0] is gs and e.args[2] is t, "derive", "add-args", "%s: added to %s at time %s" % (e.where, show(e.args[0]), show(e.args[2])))
        D.rec(e.args[3], opt_of(g, e.args[4]), e.args[5], e.where)
    rep.floor("derive", len(D.seen), 3, "steps of derivation traced")
    for e in g.events("call"):
        if e.name == BYC and g.nodes[e.node.id].facts:
            rep.check(e.args[1] is pm, "derive", "memory", "%s: rules are looked up in %s" % (e.where, show(e.args[1])))
    S = g.field(g.vfield(sam[0].val, "Some", "0"), "0")
    isQ = lambda v: call(v, BYC) and v.a[1] is g.field(S, "term")
    # sinks: what keeps a conclusion
    conc = lambda v: [x for x in q.subs(v) if x.op == "vfield" and x.a[1] == "Some" and x.a[0].op == "call" and x.a[0].a[0] in (DET, BEL)]
    keep = [e for e in g.events("call") if g.nodes[e.node.id].facts and (e.name in q.PUSH and conc(e.args[1]) or e.name == ADD and conc(e.args[3]))]
    rets = {r.id for r in g.root.retnodes}
    kb = [e for e in keep for x in conc(e.args[1] if e.name != ADD else e.args[3]) if x.a[0].a[0] == BEL and x.a[0].a[1] is S]
    kd = [e for e in keep for x in conc(e.args[1] if e.name != ADD else e.args[3]) if x.a[0].a[0] == DET and x.a[0].a[1] is S]
    nosam = lambda v, p: best.is_none(v, p, lambda o: o is sam[0].val)
    isdet = lambda o: call(o, DET) and o.a[1] is S
    nobel = lambda v, p: best.is_none(v, p, lambda o: call(o, BEL))
    rs = rank.each(g, kb, isQ, lambda d: best.has(d, nobel), panics=False)
    for e in g.events("call"):
        m = e.args[1] if e.name in q.EXTEND and g.nodes[e.node.id].facts else None
        if m is not None and m.op == "mapped" and loops.whole(m.a[0]) is not None and isQ(loops.whole(m.a[0])):
            some, why = False, []
            for pr, w in rank.settings(g, m.a[2]):
                if w.op == "agg" and w.a[1] == "None":
                    why += ["[%s]" % q.fmt(d) for d in q._fs(g, g.OUT.get(pr) or []) if not known(g, d, nobel)]
                else:
                    some = True
            if some:
                rs.append((e.node.id, why))
                kb.append(e)
    built = []
    if not kb or not kd:
        # conclusions which are collected in another way
        for e in g.events("call"):
            m = e.val if e.name in ("Iterator::filter_map", "Iterator::flat_map") and g.nodes[e.node.id].facts else None
            if not kb and not rs and m is not None and m.op == "mapped" and loops.whole(m.a[0]) is not None and isQ(loops.whole(m.a[0])):
                ws = rank.settings(g, m.a[2])
                if any(conc(w) for _, w in ws):
                    why = ["[%s]" % q.fmt(d) for pr, w in ws if w.op == "agg" and w.a[1] == "None" for d in q._fs(g, g.OUT.get(pr) or []) if not known(g, d, nobel)]
                    rs.append((e.node.id, why))
        built = [e for e in g.events("agg") if g.nodes[e.node.id].facts and e.val is not None and any(x.a[0].a[0] == DET and x.a[0].a[1] is S for x in conc(e.val))]
    if rep.check(bool(rs), "derive", "all-rules", "not every rule with the goal as consequence is used"):
        for nd, why in rs:
            for w in why:
                rep.bad("derive", "all-rules", "a rule with the goal as consequence may not be used: %s" % w)
        for u, x, ds in rank.avoid(g, sam[0].node.id, {nd for nd, _ in rs}, rets, panics=False):
            for d in ds:
                rep.check(known(g, d, lambda v, p: nosam(v, p) or best.is_some(v, p, isdet)), "derive", "rules-skipped", "the rules may not be used [%s]" % q.fmt(d))
        onward(rep, g, D, kb, [nd for nd, _ in rs], rets)
    if not kd and built:
        rep.ok("derive", "detach")
    elif rep.check(bool(kd), "derive", "detach", "a sampled goal is never detached"):
        for u, x, ds in rank.avoid(g, sam[0].node.id, {e.node.id for e in kd}, rets, panics=False):
            for d in ds:
                rep.check(known(g, d, lambda v, p: nosam(v, p) or best.is_none(v, p, isdet)), "derive", "detach-skipped", "a detached goal may be lost [%s]" % q.fmt(d))
        onward(rep, g, D, kd, [e.node.id for e in kd], rets)
    for e in keep:
        if e not in kb + kd:
            onward(rep, g, D, [e], [e.node.id], rets)
    # goals which are worked off: only if there are none left it ends before its rounds are over
    for l in loops.loops(g):
        ws = {e.args[0].id: e.args[0] for e in g.events("call") if e.node.id in l.body and e.args and working(g, e.args[0])}
        for c in ws.values():
            for u, x, ds in l.exits:
                for d in ds:
                    left = [v for v, p in d if v.op == "bin" and any(loops.len_of(k) is c for k in kids(v)) and (v.a[0] in ("Eq", "Ne") and p is (v.a[0] == "Eq") and any((loops.ival(k) or 0) > 0 for k in kids(v)) or filled(v, p, lambda y: y is c) is True)]
                    if left and not l.exhausted(d) and u in l.own:
                        rep.bad("derive", "worked-off", "goals are left in %s though there are rounds left [%s]" % (show(c), q.fmt(d)))
            rep.ok("derive", "worked-off")


def onward(rep, g, D, es, nodes, rets):
    """what es put into a list reaches the goal system"""
    todo = [(e.args[0], nodes) for e in es if e.name != ADD]
    seen = set()
    while todo:
        c, nds = todo.pop()
        if c.id in seen:
            continue
        seen.add(c.id)
        isC = lambda v: v is c
        nxt = [e for e in g.events("call") if g.nodes[e.node.id].facts and (e.name in q.PUSH and taken_in(e.args[1], c) and not working(g, e.args[0]) or e.name == ADD and taken_in(e.args[3], c))]
        ext = [e for e in g.events("call") if g.nodes[e.node.id].facts and (e.name in q.EXTEND or e.name == "Vec::append") and (lambda w: any(x is c for x in q.subs(w)))(e.args[1]) and e.args[0] is not c]
        rs = rank.each(g, nxt, isC, panics=False)
        good = [nd for nd, why in rs if not why] + [e.node.id for e in ext]
        # a working list is emptied by and by: not a way to the goal system
        if not rep.check(bool(good), "derive", "kept", "conclusions in %s may be lost%s" % (show(c), "".join(": " + w for _, y in rs for w in y))):
            continue
        for n in nds:
            for u, x, ds in rank.avoid(g, n, set(good), rets, panics=False):
                for d in ds:
                    rep.bad("derive", "kept-path", "conclusions may be lost [%s]" % q.fmt(d))
        for e in ext:
            todo.append((e.args[0], [e.node.id]))
        fin = [e for e in nxt if e.name == ADD]
        if not fin:
            for e in nxt:
                l = [l for l in loops.loops(g) if l.head in good and e.node.id in l.body]
                if e.args[0].id not in {id(None)} and not working(g, e.args[0]):
                    todo.append((e.args[0], [x.head for x in l] or [e.node.id]))


def working(g, c):
    """a list elements are taken from one by one"""
    return any(e.name in ("Vec::swap_remove", "Vec::pop", "Vec::remove", "VecDeque::pop_front") and e.args[0] is c for e in g.events("call"))


def taken_in(v, c):
    return any(taken(x) is c for x in q.subs(v) if x.op in ("elem", "vfield", "call", "idx"))


# ---------------------------------------------------------------- events, queries
def events(rep):
    g = rep.graph(OCC, atoms=[ENTRIES, EQ])
    gs, term = adt.param(g, 1), adt.param(g, 2)
    isL = lambda v: call(v, ENTRIES) and v.a[1] is gs or is_field(v, "set")
    ws = [(t, v, e) for t, v, e in q.writes(g) if g.nodes[e.node.id].facts]
    el = lambda v: loops.element_of(v) is not None
    mine = []
    for t, v, e in ws:
        if not el(t.a[0] if t.op == "field" else t):
            continue
        if rep.check(is_field(t, "desirability"), "event", "field", "%s: an event changes %s of goals" % (e.where, t.a[-1])):
            rep.check(v.op == "const" and float(v.a[1]) == 0.0, "event", "value", "%s: a satisfied goal gets the desirability %s" % (e.where, show(v)))
            mine.append(e)
            for d in facts(g, e):
                rep.check(known(g, d, lambda x, p: iseq(x, p, lambda y: y is term, lambda y: is_field(y, "term") and is_field(y.a[0], "sentence") and el(y.a[0].a[0]))), "event", "same-term", "%s: an event may satisfy a goal with another term [%s]" % (e.where, q.fmt(d)))
                rep.check(known(g, d, lambda x, p: p and is_field(x, "cfg__enGoalSatisfaction")), "event", "enabled", "%s: goals may be satisfied though that is disabled [%s]" % (e.where, q.fmt(d)))
    if not rep.check(bool(mine), "event", "exists", "events satisfy no goals"):
        return
    off = lambda v, p: not p and is_field(v, "cfg__enGoalSatisfaction")
    other = lambda v, p: iseq(v, not p, lambda y: y is term, lambda y: is_field(y, "term"))
    rs = rank.each(g, mine, lambda v: call(v, ENTRIES) and v.a[1] is gs, lambda d: best.has(d, lambda v, p: off(v, p) or other(v, p)), panics=False)
    if rep.check(bool(rs), "event", "all", "an event does not satisfy all goals with its term"):
        for nd, why in rs:
            for w in why:
                rep.bad("event", "all", "a goal with the term of the event may stay desired: %s" % w)
        for u, x, ds in rank.avoid(g, 0, {nd for nd, _ in rs}, {r.id for r in g.root.retnodes}, panics=False):
            for d in ds:
                rep.check(known(g, d, off), "event", "always", "goals may stay desired [%s]" % q.fmt(d))


def query(rep):
    g = rep.graph(QUERY, atoms=[ENTRIES, EQ])
    gs, term = adt.param(g, 1), adt.param(g, 2)
    el = lambda v: loops.element_of(v) is not None
    match = lambda x, p: iseq(x, p, lambda y: y is term, lambda y: is_field(y, "term") and is_field(y.a[0], "sentence") and el(y.a[0].a[0]))
    some = set()
    for r in g.root.retnodes:
        for v, d in q.alts(g, g.nodes[r.id], g.ret if hasattr(g, "ret") else list(q.returned(g))[0]):
            if v.op == "agg" and v.a[1] == "Some":
                some.add(v)
                rep.check(el(v.a[3]) and known(g, d, match), "query", "match", "a goal is returned whose term may be another one [%s]" % q.fmt(d))
    found = [v for v in q.returned(g) if v.op == "found"]
    n = len(some) + len(found)
    for l in loops.loops(g):
        if any(call(x, ENTRIES) for x in l.sources()):
            for u, x, d in l.early():
                if g.nodes[x].facts and rank.returns(g, x):
                    rep.check(known(g, d, match), "query", "early", "the search for a goal ends early [%s]" % q.fmt(d))
    rep.check(any(call(x, ENTRIES) for l in loops.loops(g) for x in l.sources()) or any(call(loops.whole(v.a[0]) or v, ENTRIES) for v in rank.scan_values(g)), "query", "all", "not all goals are searched")
    rep.floor("query", n, 0, "goals returned")


def by(rep, f, first):
    g = rep.graph(f, atoms=[FIND, EQ])
    term, pm = adt.param(g, 1), adt.param(g, 2)
    nm = "antecedent" if first else "consequence"
    isC = lambda v: call(v, FIND) and v.a[1] is pm
    el = lambda v: loops.element_of(v) is not None and (isC(loops.element_of(v)) or isC(loops.unfilter(loops.element_of(v))[0] or v))
    for e in g.events("call"):
        if e.name == FIND:
            its = [v for k, v, _ in q.contents(g, e.args[1])]
            rep.check(any(v is term for v in its), "rules", nm + "-find", "%s: rules are looked up by %s" % (e.where, [show(v) for v in its]))

    def end(x):
        t = [y for y in q.subs(x) if is_field(y, "term") and el(y.a[0])]
        if not t:
            return False
        s = g.vfield(t[0], "Stmt", "1" if first else "2")
        if not first:
            return x is s
        return any(y is g.vfield(s, "Seq", "0") for y in q.subs(x)) and x.op in ("idx", "cidx") and (loops.ival(x.a[1]) if isinstance(x.a[1], V) else x.a[1]) == 0 or x is s or firstel(x, g.vfield(s, "Seq", "0"))

    def firstel(x, s):
        p = payload(x)
        return p is not None and p.op == "call" and p.a[0] in ("slice::first", "slice::get") and p.a[1] is s
    match = lambda v, p: iseq(v, p, lambda y: y is term, end)
    pi = lambda v, p: v.op == "isv" and v.a[1] == "PREDIMPL" and p
    es = [e for e in g.events("call") if e.name in q.PUSH and g.nodes[e.node.id].facts]
    for e in es:
        rep.check(el(e.args[1]), "rules", nm + "-what", "%s: %s is returned" % (e.where, show(e.args[1])))
        for d in facts(g, e):
            rep.check(known(g, d, match), "rules", nm + "-match", "%s: a rule whose %s is another term may be returned [%s]" % (e.where, nm, q.fmt(d)))

    def other(v, p):
        return iseq(v, not p, lambda y: y is term, end) or v.op == "isv" and not p and v.a[1] in ("Stmt", "PREDIMPL", "Seq") or v.op == "isv" and p and v.a[1] not in ("Stmt", "PREDIMPL", "Seq", "Some", "None") or \
            v.op == "bin" and v.a[0] == "Eq" and not p and any(k.op == "agg" and k.a[1] == "PREDIMPL" for k in kids(v)) or \
            v.op == "bin" and any(loops.len_of(k) is not None and loops.len_of(k).op == "vfield" and loops.len_of(k).a[1] == "Seq" for k in kids(v)) or v.op == "isv" and v.a[0].op == "call" and v.a[0].a[0] == "slice::first"
    if es:
        rs = rank.each(g, es, isC, lambda d: best.has(d, other), panics=False)
        if rep.check(bool(rs), "rules", nm + "-all", "not all rules are considered"):
            for nd, why in rs:
                for w in why:
                    rep.bad("rules", nm + "-all", "a rule with that %s may be missing: %s" % (nm, w))
            rep.check(not rank.avoid(g, 0, {nd for nd, _ in rs}, {r.id for r in g.root.retnodes}, panics=False), "rules", nm + "-always", "rules may be missing")
    else:
        ok = False
        ext = [e.args[1] for e in g.events("call") if e.name in q.EXTEND and g.nodes[e.node.id].facts and not rank.avoid(g, 0, {e.node.id}, {r.id for r in g.root.retnodes}, panics=False)]
        for v in list(q.returned(g)) + ext:
            w, fs = loops.unfilter(v)
            if w is not None and isC(w) and fs:
                ok = True
                for r in fs:
                    for d in rank.truths(g, r, True):
                        rep.check(known(g, d, match), "rules", nm + "-match", "a rule whose %s is another term may be returned [%s]" % (nm, q.fmt(d)))
                    for d in rank.truths(g, r, False):
                        rep.check(known(g, d, other), "rules", nm + "-all", "a rule with that %s may be missing [%s]" % (nm, q.fmt(d)))
        rep.check(ok, "rules", nm + "-form", "what is returned for the %s is %s" % (nm, [show(v) for v in q.returned(g)]))
    rep.floor("rules", 1, 1, "queries")


# ---------------------------------------------------------------- sampling
def sampling(rep):
    g = rep.graph(SAMPLE, atoms=[BIN])
    gs = adt.param(g, 1)
    n = 0
    for v in q.returned(g):
        for w in best.leaves(g, v, ()):
            w = next(x for x in w if isinstance(x, V)) if isinstance(w, tuple) else w
            if w.op == "agg" and w.a[1] == "Some":
                n += 1
                tup = w.a[3]
                s, d = tup.a[3:5] if tup.op == "agg" else (None, None)
                ok = s is not None and is_field(s, "sentence") and is_field(d, "depth") and s.a[0] is d.a[0]
                rep.check(ok, "sample", "together", "sampling returns %s" % show(tup))
                if ok:
                    x = s.a[0]
                    rep.check(sub(x, "groups") or sub(x, "batchesByDepth"), "sample", "stored", "sampling returns a goal from %s" % show(x))
    rep.floor("sample", n, 1, "ways to return a sampled goal")
    batches(rep, g)
    running(rep)
    heads = {l.head for l in loops.loops(g) if any(is_field(x, "groups") for x in l.sources())}
    heads |= {e.node.id for e in g.events("call") if e.name.startswith("Iterator::") and e.args and is_field(loops.whole(e.args[0]) or e.args[0], "groups") and e.name.split("::")[-1] in ("find", "find_map", "position", "try_fold")}
    if heads:
        x = walk(g, g.root.meta[0].id, heads, {r.id for r in g.root.retnodes}, lambda v, p: filled(v, p) is False or best.is_none(v, p, lambda o: any(sub(w, "batchesByDepth") for _, w in best.leaves(g, o))))
        rep.check(x is None, "sample", "none", "no goal may be returned though the chosen batch isn't known to have none")
    for e in g.events("call"):
        if e.name != BIN or not g.nodes[e.node.id].facts:
            continue
        c = e.args[0]
        if not rep.check(is_field(c, "entries") and loops.element_of(c.a[0]) is not None, "sample", "group", "%s: it is searched in %s" % (e.where, show(c))):
            continue
        L = rank.in_loop(g, e.node)
        lin = adt.linear(g, e.args[1])
        pos = [k for k, x in (lin or {}).items() if isinstance(k, V) and x == 1]
        neg = [k for k, x in (lin or {}).items() if isinstance(k, V) and x == -1]
        if not rep.check(lin is not None and len(pos) == 1 and len(neg) == 1 and len(lin) == 2 and any(call(x, "Rng::gen_range") for x in q.subs(pos[0])), "sample", "relative", "%s: it is searched for %s, not for the rest within the group" % (e.where, show(e.args[1]))):
            continue
        sel, a = pos[0], neg[0]
        # the running sum
        w = None
        for _, x in rank.settings(g, a):
            if x.op == "const":
                rep.check(float(x.a[1]) == 0.0, "sample", "sum-start", "the running sum starts with %s" % show(x))
                continue
            l2 = adt.linear(g, x)
            if rep.check(l2 is not None and l2.get(a) == 1, "sample", "sum", "the running sum becomes %s" % show(x)):
                w = {k: y for k, y in l2.items() if k is not a}
        if w is None:
            rep.bad("sample", "sum", "%s: the running sum is never increased" % e.where)
            continue
        for m in [x for x in q.subs(sel) if x.op == "mapped" and is_field(loops.whole(x.a[0]) or x.a[0], "groups")]:
            m2 = adt.linear(g, m.a[2])
            strip = lambda k: show(k, 12) if isinstance(k, V) else k
            rep.check(m2 is None or {strip(k): y for k, y in m2.items()} == {strip(k): y for k, y in w.items()}, "sample", "total", "%s: the sum over all groups is that of %s, not of the weights %s by which they are chosen" % (e.where, show(m.a[2], 8), [show(k, 8) for k in w if isinstance(k, V)]))
        for d in facts(g, e):
            hit = False
            for v, p in d:
                ls = rank.less(v, p)
                if ls and ls[0] is sel:
                    l3 = adt.linear(g, ls[1])
                    hit |= l3 == dict(w, **{}) | {a: 1}
                elif ls:
                    lo, hi = adt.linear(g, ls[0]), adt.linear(g, ls[1])
                    if lo is not None and hi is not None:
                        df = dict(hi)
                        for k, y in lo.items():
                            df[k] = df.get(k, 0) - y
                        df = {k: y for k, y in df.items() if y}
                        hit |= df == dict(w) | {a: 1, sel: -1}
            rep.check(hit, "sample", "inside", "%s: a group may be chosen though the drawn value is not within it [%s]" % (e.where, q.fmt(d)))


def filled(v, p, of=lambda y: is_field(y, "groups")):
    """the fact says that a batch has groups (True) or none (False), else None"""
    if v.op == "call" and v.a[0].split("::")[-1] == "is_empty" and of(v.a[1]):
        return not p
    if v.op == "bin" and any(loops.len_of(k) is not None and of(loops.len_of(k)) for k in kids(v)):
        k = [loops.ival(x) for x in kids(v)]
        n = [i for i, x in enumerate(k) if x is None]
        if len(n) != 1:
            return None
        c, left = k[1 - n[0]], n[0] == 0
        if v.a[0] in ("Eq", "Ne") and c == 0:
            return p is (v.a[0] == "Ne")
        if v.a[0] == "Lt" and not left and c == 0 or v.a[0] == "Le" and not left and c == 1:
            return p
        if v.a[0] == "Lt" and left and c == 1 or v.a[0] == "Le" and left and c == 0:
            return not p
    return None


def batches(rep, g):
    """a batch with goals is chosen, if there is one: the weights summed up are those of the batches with goals, and these are what is chosen from"""
    says = lambda d, b: known(g, d, lambda v, p: filled(v, p) is b)
    isB = lambda v: v is not None and is_field(v, "batchesByDepth")
    for m in [v for v in g.pool.t.values() if v.op == "mapped" and isB(loops.whole(v.a[0]))]:
        if fnum(m.a[2]) is not None:
            rep.check(False, "sample", "batch-weight", "all batches have the weight %s" % show(m.a[2]))
        if m.a[2].op != "phi":
            continue
        for pr, w in rank.settings(g, m.a[2]):
            x = fnum(w)
            if x is None:
                continue
            for d in q._fs(g, g.OUT.get(pr) or []):
                rep.check(says(d, x > 0), "sample", "batch-weight", "a batch may have the weight %s though it has %s goals [%s]" % (x, "no" if x > 0 else "some", q.fmt(d)))
    for f in {x.id: x for x in g.pool.t.values() if x.op == "field" and x.a[1] == "groups" and x.a[0].op == "phi"}.values():
        ss = [(pr, w) for pr, w in rank.settings(g, f.a[0]) if w.op == "elem" and isB(w.a[0])]
        for pr, w in ss:
            for d in q._fs(g, g.OUT.get(pr) or []):
                rep.check(says(d, True), "sample", "batch", "a batch may be chosen though it isn't known to have goals [%s]" % q.fmt(d))
        ls = [l for l in loops.loops(g) if any(isB(x) for x in l.sources())]
        if f.a[0].a[-1][1] in {l.head for l in ls} | {u for l in ls for u in l.body}:
            rep.check(bool(ss), "sample", "batch-any", "no batch but a fixed one is ever chosen")
    gr = {x.id: x for x in g.pool.t.values() if x.op == "field" and x.a[1] == "groups"}.values()
    fixed = [x for x in gr if x.a[0].op in ("idx", "cidx") and isB(x.a[0].a[0]) and (x.a[0].op == "cidx" or loops.ival(x.a[0].a[1]) is not None)]
    used = lambda x: any(x is y for e in g.events("call") if e.node.facts for a in e.args for y in q.subs(a))
    if fixed and any(used(x) for x in fixed):
        rep.check(any(x not in fixed and used(x) and (x.a[0].op == "phi" or x.a[0].op == "idx") for x in gr), "sample", "batch-any", "goals are sampled from %s only" % show(fixed[0].a[0]))


def running(rep):
    """the sums by which a goal of a group is found: a new goal continues from the last one of its group, the first one from nothing"""
    f = G + "addEntry2"
    if f not in rep.c.fns:
        return
    g = rep.graph(f, atoms=[EQ, SAME, DEC, G + "convProcTermToQaTerm"] + STR)
    live = [e for e in g.events("call") if e.node.facts and e.name in q.PUSH]
    old = [e for e in live if is_field(e.args[0], "entries")]
    new = [e for e in live if is_field(e.args[0], "groups")]
    ws = [e for e in g.events() if e.kind in ("write", "lwrite") and e.node.facts and "accDesirability" in show(e.args[0], 3)]
    zero = {e.node.id for e in ws if fnum(e.val) == 0}
    cont = set()
    for e in ws:
        if fnum(e.val) is not None:
            rep.check(fnum(e.val) == 0, "sample", "sum-first", "%s: the sum of a goal is set to %s" % (e.where, show(e.val)))
            continue
        fs = [x for x in q.subs(e.val) if x.op == "field" and x.a[1] in ("accDesirability", "desirability")]
        ok = {x.a[1] for x in fs} == {"accDesirability", "desirability"} and len({x.a[0].id for x in fs}) == 1 and e.val.op == "bin" and e.val.a[0].startswith("Add") and not any(x.op == "call" and x.a[0].split("::")[-1] == "min" and is_field(rank.uncast(x.a[1]), "desirability") for x in q.subs(e.val))
        if rep.check(ok, "sample", "sum-next", "%s: the sum of a goal is %s, not that of the goal before it and its desirability" % (e.where, show(e.val, 9))):
            cont.add(e.node.id)
            x = fs[0].a[0]
            at = adt.linear(g, rank.uncast(x.a[1])) if x.op == "idx" else None
            last = at is not None and at.get(1) == -1 and len(at) == 2 or x.op == "cidx" and x.a[1:] == (1, True)
            rep.check(x.op not in ("idx", "cidx") or last and is_field(x.a[0], "entries"), "sample", "sum-last", "%s: the sum continues from %s, not from the last goal of the group" % (e.where, show(x, 6)))
    for es, wr, what in ((old, cont, "continuing from the last one"), (new, zero, "starting with nothing")):
        for e in es:
            x = walk(g, g.root.meta[0].id, wr, {e.node.id})
            rep.check(x is None, "sample", "sum-set", "%s: a goal may be put into a group without its sum %s" % (e.where, what))


def binsearch(rep):
    if BIN not in rep.c.fns:
        return
    g = rep.graph(BIN, atoms=[BIN])
    arr, val = adt.param(g, 1), adt.param(g, 2)
    for e in g.events("call"):
        if e.name != BIN or not g.nodes[e.node.id].facts:
            continue
        rep.check(e.args[1] is val, "search", "value", "%s: it is searched for %s" % (e.where, show(e.args[1])))
        for v, d in q.alts(g, e.node, e.args[0]):
            if not (v.op == "idx" and v.a[0] is arr and v.a[1].op == "agg"):
                continue
            f = dict(zip(v.a[1].a[2], v.a[1].a[3:]))
            kind = "lower" if "end" in f else "upper"
            mid = f.get("end") or f.get("start")
            ok = False
            for x, p in d:
                c = rank.less(x, p)
                if c is None:
                    continue
                lo, hi, st = c
                m = hi if kind == "lower" else lo
                o = lo if kind == "lower" else hi
                if is_field(m, "accDesirability") and m.a[0].op == "idx" and m.a[0].a[0] is arr and m.a[0].a[1] is mid and o is val:
                    ok = True
            rep.check(ok, "search", kind, "%s: the %s half is searched though the value may lie in the other one [%s]" % (e.where, kind, q.fmt(d)))


def check(rep):
    adding(rep)
    all_goals(rep)
    deriving(rep)
    events(rep)
    query(rep)
    by(rep, BYA, True)
    by(rep, BYC, False)
    sampling(rep)
    binsearch(rep)
