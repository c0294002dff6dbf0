"""C20: bounded resources: what is forgotten is the worst, what is kept stays findable."""
import adt
import best
import loops
import q
import rank
from c13 import is_field
from c15 import call
from vg import V, kids, show

LEVEL = "other"
RULE = ("Goals, concepts and judgement tasks are limited by: rating every item, sorting all of them from best to worst by that rating, keeping a prefix whose length is the limit, replacing the whole store (with its indices) by exactly the kept items. "
        "Rating of a goal: increasing in the expectation of its truth and in its desirability, decreasing in its age; of a concept: the best expectation of its beliefs; of a task: its credit at the current cycle. "
        "Every path through the limiting function reaches the cut unless the store is known to fit; the reasoners call it periodically with the configured limits.")
ASSUME = ["Tv::calcExp is decided by C01, taskCalcCredit by C26 where claimed, addEntry by C19, populateTaskByTermLookup by C12", "std sort_by / HashMap semantics", "tasks of questions are not covered: they are kept until the end"]
G = "NarGoalSystem::"
W = "NarWorkingCycle::"
LIMG, ENTRIES, ADD, LIMC, CYCLE, CREDIT = G + "limitMemory", G + "retEntries", G + "addEntry", "NarMem::limitMemory", W + "reasonCycle", W + "taskCalcCredit"
POP, STEP, EXP, TV = W + "populateTaskByTermLookup", "NarProc::narStep1", "Tv::calcExp", "NarSentence::retTv"
STR = ["Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"]


def sub(v, name):
    return any(is_field(x, name) for x in q.subs(v))


def live(g, e):
    return bool(g.nodes[e.node.id].facts)


def rets(g):
    return {r.id for r in g.root.retnodes}


def after(g, a):
    seen, st = set(), [a]
    while st:
        for s, _ in g.nodes[st.pop()].succ:
            if s not in seen and g.nodes[s].facts:
                seen.add(s)
                st.append(s)
    return seen


# ---------------------------------------------------------------- monotone ratings
def sign(v):
    """-1 / 1 if v is known to be <= 0 / >= 0, else None"""
    if v.op == "const":
        try:
            x = float(v.a[1])
            return 1 if x >= 0 else -1
        except (ValueError, TypeError):
            return None
    if v.op == "cast":
        return sign(kids(v)[0])
    if v.op == "un" and v.a[0] == "Neg":
        s = sign(v.a[1])
        return -s if s else None
    if v.op == "call" and (v.a[0] in ("f64::abs", "f32::abs", "f64::exp", "f32::exp", EXP, "f64::powf", "f64::sqrt") or v.a[0].endswith("::exp")):
        return 1
    if v.op == "bin" and v.a[0] in ("Mul", "Div"):
        a, b = sign(v.a[1]), sign(v.a[2])
        return a * b if a and b else None
    if v.op == "bin" and v.a[0] == "Add":
        a, b = sign(v.a[1]), sign(v.a[2])
        return a if a and a == b else None
    if is_field(v, "desirability"):
        return 1
    return None


PHIS = {}


def which(g, p):
    """1: the greater of accumulator and element, -1: the lesser"""
    got = set()
    acc = lambda x: x.op == "unk" and x.a[0] == "acc"
    for pred, w in g.phis[p.id]:
        for d in q._fs(g, g.OUT.get(pred) or []):
            r = None
            for v, pol in d:
                c = rank.less(v, pol)
                if c and (acc(c[0]) or acc(c[1])) and (c[0] is w or c[1] is w):
                    r = 1 if c[1] is w else -1
            got.add(r)
    return got.pop() if len(got) == 1 else None


def mono(v, leaf):
    """1 / -1: v increases / decreases with leaf; 0: does not depend on it; None: unknown"""
    if leaf(v):
        return 1
    if not any(leaf(x) for x in q.subs(v)):
        return 0
    if v.op == "cast":
        return mono(kids(v)[0], leaf)
    if v.op == "un" and v.a[0] == "Neg":
        m = mono(v.a[1], leaf)
        return None if m is None else -m
    if v.op == "bin":
        a, b = v.a[1], v.a[2]
        ma, mb = mono(a, leaf), mono(b, leaf)
        if ma is None or mb is None:
            return None
        if v.a[0] == "Sub":
            mb = -mb
        elif v.a[0] in ("Mul", "Div"):
            sa, sb = sign(a), sign(b)
            if ma and not sb or mb and not sa:
                return None
            ma *= sb or 1
            mb *= sa or 1
            if v.a[0] == "Div":
                mb = -mb
        elif v.a[0] != "Add":
            return None
        if ma and mb and ma != mb:
            return None
        return ma or mb
    if v.op == "call":
        f = v.a[0].split("::")[-1]
        ks = [k for k in v.a[1:] if isinstance(k, V)]
        if f in ("exp", "sqrt", "ln", "exp2", "abs"):
            return mono(ks[0], leaf)
        if f == "fold" and ks[1].op == "phi" and PHIS.get(ks[1].id):
            # |a, x| if x > a {x} else {a}: the greatest (1) or least (-1) element
            w = which(PHIS[ks[1].id][0], ks[1])
            src = ks[0].a[1] if ks[0].op == "mapped" else ks[0]
            m = mono(src, leaf)
            return None if w is None or m is None else m * w
        if f == "fold":
            fn = [k for k in ks if k.op in ("fnc", "fn") or k.op == "const" and "max" in show(k)]
            src = ks[0].a[1] if ks[0].op == "mapped" else ks[0]
            if fn:
                return mono(src, leaf) if "max" in show(fn[0]) else -1 if "min" in show(fn[0]) else None
            return mono(ks[1], leaf)
        if f in ("max", "min"):
            ms = {mono(k, leaf) for k in ks} - {0}
            return ms.pop() if len(ms) == 1 else None
        if f in ("powf", "powi") and ks[0].op == "const":
            m = mono(ks[1], leaf)
            return None if m is None else m if float(ks[0].a[1]) >= 1 else -m
    if v.op == "phi":
        return None
    return None


# ---------------------------------------------------------------- keep the first n
def fits(d, isN, coll=None):
    """the facts say that a collection is not longer than n"""
    for v, p in d:
        c = rank.less(v, p)
        if c and loops.len_of(rank.uncast(c[0])) is not None and isN(rank.uncast(c[1])):
            if coll is None or coll(loops.len_of(rank.uncast(c[0]))):
                return True
        if v.op == "call" and v.a[0].endswith("::is_empty") and p and (coll is None or coll(v.a[1])):
            return True
    return False


def removals(g, colls):
    """[(event, limit or None, kind)] removals one by one"""
    out = []
    for e in g.events("call"):
        if e.name in ("Vec::remove", "Vec::pop", "Vec::swap_remove") and live(g, e) and any(e.args[0] is c for c in colls):
            lim = set()
            for d in q._fs(g, g.nodes[e.node.id].facts):
                ls = [rank.uncast(c[0]) for c in (rank.less(v, p) for v, p in d) if c and c[2] and loops.len_of(rank.uncast(c[1])) is e.args[0]]
                lim.add(ls[0] if ls else None)
            l = lim.pop() if len(lim) == 1 else None
            last = lambda i: i.op == "bin" and i.a[0] == "Sub" and loops.len_of(i.a[1]) is e.args[0] and loops.ival(i.a[2]) == 1
            i = rank.uncast(e.args[1]) if len(e.args) > 1 else None
            ok = i is None or i is l or last(i)
            out.append((e, l, "prefix" if ok else "other"))
    return out


def cut(rep, g, rule, what, colls, isN, start, stops, excuse=lambda d: False):
    """after node `start` one of colls is cut to its first n elements on all paths to stops; -> values that hold the result"""
    res = list(colls)
    cs = []
    for e, k, l in rank.cuts(g, colls):
        if e.name != "Vec::pop" and live(g, e):
            cs.append((e.node.id, k, rank.uncast(l) if isinstance(l, V) else None, e.where))
    later = after(g, start)
    for e, l, k in removals(g, colls):
        if e.node.id not in later:
            continue
        L = rank.in_loop(g, e.node)
        if not rep.check(L is not None, rule, "cut-all", "%s: at most one of the %s too many is removed" % (e.where, what)):
            continue
        for u, x, d in L.early():
            if g.nodes[x].facts and rank.returns(g, x):
                rep.check(rank.known(g, d, lambda y: fits(y, isN)), rule, "cut-all", "%s: removing may stop while there are too many %s [%s]" % (e.where, what, q.fmt(d)))
        cs.append((L.head, k, l, e.where))
    for x in list(g.pool.t.values()):
        if x.op in ("idx", "call", "filtered", "mapped"):
            b, lim = rank.strip(loops_base(x), colls)
            if lim and any(b is c for c in colls):
                res.append(x)
                if x.op != "filtered" and x.op != "mapped":
                    nd = where_made(g, x)
                    if nd is not None:
                        for k, l in lim:
                            cs.append((nd, k, rank.uncast(l) if isinstance(l, V) else None, "node %d" % nd))
    if not rep.check(bool(cs), rule, "cut", "the number of %s is not limited" % what):
        return None
    for nd, k, l, w in cs:
        rep.check(k == "prefix", rule, "cut-best", "%s: the %s kept are not the first ones" % (w, what))
        if k == "prefix":
            rep.check(l is not None and isN(l), rule, "cut-limit", "%s: the number of %s is limited to %s" % (w, what, show(l) if l is not None else "?"))
    for u, x, ds in rank.avoid(g, start, {c[0] for c in cs}, stops, panics=False):
        for d in ds:
            rep.check(rank.known(g, d, lambda y: fits(y, isN)) or rank.known(g, d, excuse), rule, "cut-path", "the %s may not be limited [%s]" % (what, q.fmt(d)))
    return [c[0] for c in cs], res


def loops_base(x):
    while x.op == "filtered":
        x = x.a[0]
    return x


def where_made(g, x):
    for e in g.events("call"):
        if live(g, e) and (e.val is x or x in [a for a in e.args if a is not None]):
            return rank.anchor(g, e).id
    for e in g.events():
        if live(g, e) and e.kind in ("write", "lwrite") and x in [a for a in (e.args or []) if a is not None]:
            return e.node.id
    return None


def ordered(rep, g, rule, what, colls, keyok):
    """the sorts of the collection: best first -> nodes"""
    out = []
    for so in rank.sorts(g):
        if not any(so.coll is c for c in colls):
            continue
        flips = [x for x in g.events("call") if x.name == "slice::reverse" and live(g, x) and x.args[0] is so.coll]
        if so.dir is None or not so.keys():
            rep.ok(rule, "order-undecided")
        else:
            for k in so.keys():
                r = keyok(k)
                rep.check(r is not None, rule, "order-key", "%s: the %s are ordered by %s" % (so.e.where, what, show(k)))
                if r is not None:
                    desc = (so.dir == "desc") != (len(flips) % 2 == 1)
                    rep.check(desc == (r > 0), rule, "order-best-first", "%s: the %s are not sorted from best to worst" % (so.e.where, what))
        out.append(so)
    rep.check(bool(out), rule, "order", "the %s are not sorted before some are forgotten" % what)
    return out


# ---------------------------------------------------------------- goals
def goals(rep):
    c = rep.c
    adders = [f for f, cs in q.callgraph(c).items() if f.startswith(G) and f in c.fns and {ADD, LIMG} <= {x.split("::{")[0] for x, _ in cs} and f not in (ENTRIES,)]
    g = rep.graph(LIMG, atoms=[ENTRIES, EXP, TV] + adders + STR)
    gs, m2, t = [adt.param(g, i) for i in (1, 2, 3)]
    isA = lambda v: call(v, ENTRIES)
    alls = [e.val for e in g.events("call") if e.name == ENTRIES and live(g, e)]
    if not rep.check(bool(alls), "goals", "all", "the limit does not regard all goals"):
        return
    colls = alls + [v for v in list(g.pool.t.values()) if v.op in ("mapped",) and loops.whole(v) is not None and isA(loops.whole(v))] + \
        [v for v in list(g.pool.t.values()) if v.op == "new" and any(k == "item" and any(loops.element_of(x) is not None and isA(loops.element_of(x)) for x in q.subs(w)) for k, w, _ in q.contents(g, v))]
    el = lambda v: loops.element_of(v) is not None and any(loops.element_of(v) is x for x in alls) or v.op == "elem" and isA(v.a[0])
    isN = lambda v: is_field(v, "nMaxEntries")
    # ratings
    ws = [(tg, v, e) for tg, v, e in q.writes(g, "utility") if live(g, e)]

    def rated(v, w):
        ok = True
        for nm, leaf, want in (("expectation", lambda x: call(x, EXP), 1), ("desirability", lambda x: is_field(x, "desirability"), 1), ("time of creation", lambda x: is_field(x, "createTime"), 1), ("present time", lambda x: x is t, -1)):
            m = mono(v, leaf)
            ok &= rep.check(m == want, "goals", "rating-" + nm.split()[0], "%s: the rating of a goal %s with its %s: %s" % (w, {1: "increases", -1: "decreases", 0: "does not change"}.get(m, "may not be ordered"), nm, show(v)))
        for x in q.subs(v):
            if call(x, EXP):
                a = [y for y in q.subs(x) if call(y, TV)]
                rep.check(bool(a) and is_field(a[0].a[1], "sentence"), "goals", "rating-own", "%s: the expectation is that of %s" % (w, show(x)))
            if is_field(x, "desirability") or is_field(x, "createTime") or is_field(x, "sentence"):
                rep.check(el(x.a[0]), "goals", "rating-own", "%s: %s is used" % (w, show(x)))
        return ok
    heads = None
    for tg, v, e in ws:
        rated(v, e.where)
        rep.check(el(tg.a[0] if is_field(tg, "utility") else tg), "goals", "rating-own", "%s: the rating is written to %s" % (e.where, show(tg)))
    if ws:
        rs = rank.each(g, [e for _, _, e in ws], isA, panics=False)
        if rep.check(bool(rs), "goals", "rating-all", "not all goals are rated"):
            for nd, why in rs:
                for x in why:
                    rep.bad("goals", "rating-all", "a goal may keep an old rating: %s" % x)
            heads = {nd for nd, _ in rs}

    def key(k):
        if is_field(k, "utility"):
            return 1
        if any(call(x, EXP) for x in q.subs(k)):
            return 1 if rated(k, "sort") else None
        m = mono(k, lambda x: is_field(x, "utility"))
        return m or None
    so = ordered(rep, g, "goals", "goals", colls, key)
    if heads is not None:
        for s in so:
            rep.check(not rank.avoid(g, 0, heads, {s.node.id}, panics=False), "goals", "rating-before", "%s: the goals may be sorted by old ratings" % s.e.where)
    if not so:
        return
    sn = {s.node.id for s in so}
    r = cut(rep, g, "goals", "goals", colls, isN, max(sn), rets(g))
    if r is None:
        return
    cn, res = r
    for n in cn:
        rep.check(not rank.avoid(g, 0, sn, {n}, panics=False), "goals", "sorted-before", "goals may be forgotten before they are sorted")
    # the stores
    fill = [e for e in g.events("call") if e.name in adders and live(g, e)] if adders else \
        [e for e in g.events("call") if (e.name in q.PUSH or e.name == "HashMap::insert") and live(g, e) and (sub(e.args[0], "groups") or sub(e.args[0], "activeSet"))]
    if not rep.check(bool(fill), "goals", "kept", "the goals are not put back"):
        return

    def kept(v):
        b, lim = rank.strip(v)
        return any(v is c for c in res) or any(b is c for c in res)
    own = lambda v: v.op == "elem" and kept(v.a[0]) or v.op == "field" and own(v.a[0])
    for e in fill:
        if e.name in adders:
            a = [x for x in e.args if x is not None and x.op in ("elem", "field") and own(x)]
            rep.check(bool(a), "goals", "kept-own", "%s: %s is put back" % (e.where, [show(x) for x in e.args if x is not None]))
    isK = lambda v: any(v is c for c in res) or any(rank.strip(v, res)[0] is c for c in res)
    rs = kept_each(g, fill, isK)
    heads = {nd for nd, _ in rs}
    if rep.check(bool(rs), "goals", "kept-all", "not all goals that are kept are put back"):
        for nd, why in rs:
            for x in why:
                rep.bad("goals", "kept-all", "a goal that is kept may not be put back: %s" % x)
    flush = {"batchesByDepth": [], "entriesByTerm": [], "activeSet": []}
    for tg, v, e in q.writes(g):
        for k in flush:
            if live(g, e) and (is_field(tg, k) or is_field(tg, "set") and sub(tg, k)):
                flush[k].append(e)
    for e in g.events("call"):
        for k in flush:
            if live(g, e) and e.name in ("Vec::clear", "HashMap::clear", "Vec::truncate", "Vec::drain", "HashMap::drain", "mem::take", "mem::replace") and e.args[0] is not None and (is_field(e.args[0], k) or is_field(e.args[0], "set") and sub(e.args[0], k)):
                flush[k].append(e)
    for k, es in flush.items():
        if not rep.check(bool(es), "goals", "flush-" + k, "forgotten goals stay in %s" % k):
            continue
        for e in es:
            for f in fill:
                rep.check(e.node.id not in after(g, f.node.id), "goals", "flush-before", "%s: %s is emptied after goals were put back" % (e.where, k))
            for nd in [x.node.id for x in g.events("call") if x.name == ENTRIES and live(g, x)]:
                rep.check(nd not in after(g, e.node.id), "goals", "flush-late", "%s: %s is emptied before the goals in it were collected" % (e.where, k))
            if heads:
                rep.check(not rank.avoid(g, e.node.id, heads, rets(g), panics=False), "goals", "flush-fill", "%s: %s is emptied and the goals may not be put back" % (e.where, k))
        for f in fill:
            for u, x, ds in rank.avoid(g, 0, {e.node.id for e in es}, {f.node.id}, panics=False):
                rep.bad("goals", "flush-path", "forgotten goals may stay in %s" % k)
    batches(rep, g, gs, fill)
    made(rep)


def kept_each(g, fill, isK):
    out = rank.each(g, fill, isK, panics=False)
    if out:
        return out
    # loops over a cut view: `for x in &arr[..n]`
    for l in loops.loops(g):
        for e in l.nexts:
            if isK(e.args[0]) or isK(rank.strip(e.args[0])[0]):
                ids = {f.node.id for f in fill if f.node.id in l.body}
                if ids:
                    rs = []
                    for u, x, ds in rank.avoid(g, l.head, ids, {l.head}, l.body, panics=False):
                        rs += ["an element may be skipped [%s]" % q.fmt(d) for d in ds if not l.exhausted(d)]
                    for u, x, d in l.early():
                        if g.nodes[x].facts and rank.returns(g, x):
                            rs.append("it may stop before the last element [%s]" % q.fmt(d))
                    out.append((l.head, rs))
    return out


def batches(rep, g, gs, fill, rule="goals"):
    """one empty batch per depth 0..nMaxDepth"""
    n = 0
    for x in list(g.pool.t.values()):
        if x.op == "agg" and x.a[0] == G + "BatchByDepth":
            f = dict(zip(x.a[2], x.a[3:]))
            d = rank.uncast(f["depth"])
            src = d.a[0] if d.op == "elem" else None
            if src is None:
                continue
            n += 1
            if src.op == "agg" and "Range" in str(src.a[0]):
                r = dict(zip(src.a[2], src.a[3:]))
                end = rank.uncast(r["end"])
                rep.check(loops.ival(r["start"]) == 0 and (is_field(end, "nMaxDepth") or end.op == "param") and "Inclusive" not in src.a[0], rule, "batches", "the batches are made for the depths %s" % show(src))
            its = q.contents(g, f["groups"]) if f["groups"].op == "new" else []
            rep.check(not its, rule, "batches-empty", "a new batch is not empty")
    rep.check(n > 0, rule, "batches", "there is no batch for each depth")


def made(rep):
    f = G + "makeGoalSystem"
    if f not in rep.c.fns:
        return
    g = rep.graph(f)
    batches(rep, g, None, None, "goals-new")
    for v in q.returned(g):
        for x in q.subs(v):
            if x.op == "agg" and x.a[0] == G + "GoalSystem":
                fs = dict(zip(x.a[2], x.a[3:]))
                rep.check(fs["nMaxEntries"] is adt.param(g, 1), "goals-new", "entries", "a new goal system has room for %s" % show(fs["nMaxEntries"]))
                rep.check(fs["nMaxDepth"] is adt.param(g, 2), "goals-new", "depth", "a new goal system has the maximal depth %s" % show(fs["nMaxDepth"]))


# ---------------------------------------------------------------- concepts
def concepts(rep):
    g = rep.graph(LIMC, atoms=[EXP, TV])
    mem, n = adt.param(g, 1), adt.param(g, 2)
    PHIS.update({i: (g, 0) for i in g.phis})
    M = g.field(mem, "concepts")
    isN = lambda v: v is n
    isA = lambda v: v is M or v.op == "call" and v.a[0] in ("HashMap::values", "HashMap::iter", "HashMap::values_mut", "HashMap::iter_mut", "HashMap::drain", "mem::take") and v.a[1] is M
    conc = lambda v: loops.element_of(v) is not None and isA(loops.element_of(v)) or v.op == "field" and conc(v.a[0])
    holders = []
    for v in list(g.pool.t.values()):
        if v.op in ("new", "phi") and any(k == "item" and any(conc(x) for x in q.subs(w)) for k, w, _ in q.contents(g, v)):
            holders.append(v)
        if v.op == "mapped" and loops.whole(v) is not None and isA(loops.whole(v)):
            holders.append(v)
    if not rep.check(bool(holders), "concepts", "all", "the limit does not regard the concepts"):
        return
    # every concept is a candidate
    ps = [e for e in g.events("call") if e.name in q.PUSH and live(g, e) and any(e.args[0] is h for h in holders)]
    if ps:
        rs = rank.each(g, ps, isA, panics=False)
        if rep.check(bool(rs), "concepts", "all", "not all concepts are candidates to be kept"):
            for nd, why in rs:
                for x in why:
                    rep.bad("concepts", "all", "a concept may be forgotten before the rating: %s" % x)

    def rating(k):
        ls = best.leaves(g, k)
        hit = False
        for _, x in ls:
            if x.op == "const":
                try:
                    if float(x.a[1]) > 0.0:
                        return None
                except ValueError:
                    return None
                continue
            es = [y for y in q.subs(x) if call(y, EXP)]
            if not es or not all(sub(y, "beliefsByExp") or sub(y, "beliefsByUsage") for y in es):
                if x.op == "phi" or any(y.op == "phi" for y in q.subs(x)):
                    continue
                return None
            m = mono(x, lambda y: call(y, EXP))
            if x.op == "call" and x.a[0].split("::")[-1] == "min":
                return -1
            if m is None or m == 0:
                return None
            hit = True
            if m < 0:
                return -1
        return 1 if hit else None
    so = ordered(rep, g, "concepts", "concepts", holders, rating)
    if not so:
        return
    # the rating covers all beliefs of the table
    ex = [e for e in g.events("call") if e.name == EXP and live(g, e)]
    isB = lambda v: is_field(v, "beliefsByExp")
    rs = rank.each(g, ex, isB, panics=False)
    for nd, why in rs:
        for x in why:
            rep.bad("concepts", "rating-all", "a belief may be left out of the rating: %s" % x)
    rep.check(bool(rs) or not ex, "concepts", "rating-all", "the rating does not regard all beliefs")
    sn = {s.node.id for s in so}
    r = cut(rep, g, "concepts", "concepts", holders, isN, max(sn), rets(g))
    if r is None:
        return
    cn, res = r
    for x in cn:
        rep.check(not rank.avoid(g, 0, sn, {x}, panics=False), "concepts", "sorted-before", "concepts may be forgotten before they are sorted")
    # not limited only if they fit
    for u, x, ds in rank.avoid(g, 0, sn, rets(g), panics=False):
        for d in ds:
            rep.check(rank.known(g, d, lambda y: fits(y, isN, lambda c: c is M)), "concepts", "whenever", "the concepts may not be limited though there are too many [%s]" % q.fmt(d))
    fill = [e for e in g.events("call") if e.name == "HashMap::insert" and live(g, e) and (e.args[0] is M or e.args[0].op == "new")]
    ext = [e for e in g.events("call") if e.name in ("Extend::extend", "HashMap::extend") and live(g, e) and e.args[0] is M]
    coll = [v for tg, v, e in q.writes(g) if tg is M and v.op == "mapped"]
    if not rep.check(bool(fill) or bool(coll) or bool(ext), "concepts", "kept", "the concepts are not put back"):
        return
    isK = lambda v: any(v is c for c in res) or any(rank.strip(v, res)[0] is c for c in res)
    heads = set()
    if fill:
        for e in fill:
            k, v = e.args[1], e.args[2]
            rep.check(is_field(k, "name") and (k.a[0] is v) or sub(k, "name") and any(x is v for x in q.subs(k)) or k.op == "field" and v.op == "field" and k.a[0] is v.a[0], "concepts", "kept-name", "%s: a concept is put back under the name %s" % (e.where, show(k)))
        rs = kept_each(g, fill, isK)
        if rep.check(bool(rs), "concepts", "kept-all", "not all concepts that are kept are put back"):
            for nd, why in rs:
                for x in why:
                    rep.bad("concepts", "kept-all", "a concept that is kept may not be put back: %s" % x)
            heads = {nd for nd, _ in rs}
    flush = [e for tg, v, e in q.writes(g) if tg is M and live(g, e)] + \
        [e for e in g.events("call") if e.name in ("HashMap::clear", "mem::take", "mem::replace", "HashMap::drain") and live(g, e) and e.args[0] is M]
    if rep.check(bool(flush), "concepts", "flush", "forgotten concepts stay in the memory"):
        for e in flush:
            if e.kind == "call" or e.args[1].op == "new" and not q.contents(g, e.args[1]):
                for f in fill:
                    rep.check(e.node.id not in after(g, f.node.id), "concepts", "flush-before", "%s: the memory is emptied after concepts were put back" % e.where)
                if heads:
                    rep.check(not rank.avoid(g, e.node.id, heads, rets(g), panics=False), "concepts", "flush-fill", "%s: the memory is emptied and the concepts may not be put back" % e.where)
        for f in fill:
            if f.args[0] is M:
                rep.check(not rank.avoid(g, 0, {e.node.id for e in flush}, {f.node.id}, panics=False), "concepts", "flush-path", "%s: forgotten concepts may stay in the memory" % f.where)


# ---------------------------------------------------------------- tasks
def every_so_often(v, p, counter, most):
    """fact: counter % k == r does not hold, k <= most"""
    if v.op == "bin" and v.a[0] == "Eq" and not p or v.op == "bin" and v.a[0] in ("Ne", "Lt") and p:
        for k in kids(v):
            if k.op == "bin" and k.a[0] == "Rem" and counter(k.a[1]) and 0 < (loops.ival(k.a[2]) or 0) <= most:
                return True
    if v.op == "call" and v.a[0].endswith("is_multiple_of") and not p and counter(v.a[1]):
        return True
    return False


def residue(v, p, counter):
    """(k, r): the fact says counter % k == r"""
    if v.op == "bin" and (v.a[0] == "Eq" and p or v.a[0] == "Ne" and not p):
        a, b = kids(v)
        for x, y in ((a, b), (b, a)):
            if x.op == "bin" and x.a[0] == "Rem" and counter(x.a[1]) and loops.ival(x.a[2]) and loops.ival(y) is not None:
                return loops.ival(x.a[2]), loops.ival(y)
    return None


def tasks(rep):
    c = rep.c
    g = rep.graph(CYCLE, atoms=[CREDIT, W + "taskSelByCreditTop", W + "taskSelByCreditRandom", W + "task2SelByCreditRandom", POP, LIMC, W + "qaTryAnswer", "Term::retSubterms", "Term::retUniqueSubterms", "Term::checkEqTerm", "Term::calcComplexity", "NarSentence::usageUpdate", "NarMem::ret_beliefs_of_concept"] + STR)
    counter = lambda v: sub(rank.uncast(v), "cycleCounter")
    rare = lambda d, most=111: best.has(d, lambda v, p: every_so_often(v, p, counter, most))
    mem = adt.param(g, 1)
    T = [v for v in list(g.pool.t.values()) if is_field(v, "judgementTasks")]
    credit = lambda v: call(v, CREDIT)

    def key(k):
        if credit(k):
            rep.check(counter(k.a[2]), "tasks", "order-now", "the tasks are ordered by the credit at the time %s" % show(k.a[2]))
            rep.check(loops.element_of(k.a[1]) is not None, "tasks", "order-own", "the tasks are ordered by the credit of %s" % show(k.a[1]))
            return 1
        return mono(k, credit) or None
    colls = T + [v for v in list(g.pool.t.values()) if v.op == "mapped" and loops.whole(v) is not None and any(loops.whole(v) is t for t in T)]
    so = ordered(rep, g, "tasks", "tasks", colls, key)
    if not so:
        return
    sn = {s.node.id for s in so}
    once = {}

    def isN(v):
        n = loops.ival(v)
        if n is None and v.op == "field":
            return True
        return n is not None and 0 < n <= 1000
    r = cut(rep, g, "tasks", "tasks", colls, isN, max(sn), rets(g))
    for u, x, ds in rank.avoid(g, 0, sn, rets(g), panics=False):
        for d in ds:
            rep.check(rare(d) or rank.known(g, d, lambda y: fits(y, isN)), "tasks", "whenever", "the tasks may never be limited [%s]" % q.fmt(d))
    if r is None:
        return
    cn, res = r
    for n in cn:
        rep.check(not rank.avoid(g, 0, sn, {n}, panics=False), "tasks", "sorted-before", "tasks may be forgotten before they are sorted")
    # the list becomes the kept ones
    back = False
    for tg, v, e in q.writes(g):
        if not (is_field(tg, "judgementTasks") and live(g, e)):
            continue
        b, fs = v, []
        while b.op == "filtered" or b.op == "mapped":
            if b.op == "filtered":
                fs.append(b.a[2])
            b = b.a[0]
        b2, lim = rank.strip(b)
        if rep.check(any(b2 is x for x in colls) or any(v is x for x in res), "tasks", "kept-own", "%s: the task list becomes %s" % (e.where, show(v))):
            back |= bool(lim)
        poor(rep, g, fs, e.where)
    for e in g.events("call"):
        if e.name == "Vec::retain" and live(g, e) and is_field(e.args[0], "judgementTasks") and e.node.id in set().union(*[after(g, x) for x in sn]):
            poor(rep, g, [e.args[1]], e.where)
    inplace = any(e.args and e.args[0] is not None and is_field(e.args[0], "judgementTasks") and live(g, e) and e.name in ("Vec::truncate", "Vec::drain", "Vec::split_off", "Vec::pop", "Vec::remove") and e.node.id in set().union(*[after(g, x) for x in sn]) for e in g.events("call"))
    rep.check(back or inplace, "tasks", "kept-back", "the limited list of tasks is not put back")
    # index
    I = [(tg, v, e) for tg, v, e in q.writes(g, "judgementTasksByTerm") if live(g, e)]
    cl = [e for e in g.events("call") if e.name == "HashMap::clear" and live(g, e) and sub(e.args[0], "judgementTasksByTerm")]
    flush = {e.node.id for _, _, e in I} | {e.node.id for e in cl}
    pops = [e for e in g.events("call") if e.name == POP and live(g, e)]
    if not rep.check(bool(flush), "index", "flush", "forgotten tasks stay in the index by term") or not rep.check(bool(pops), "index", "fill", "the index by term is not filled again"):
        return
    for s in sn:
        for u, x, ds in rank.avoid(g, s, flush, rets(g), panics=False):
            res_s = same_time(g, s, x, ds, counter)
            for d in ds:
                rep.check(res_s and rare(d), "index", "flush-path", "forgotten tasks may stay in the index by term [%s]" % q.fmt(d))
    for e in pops:
        a = e.args
        task, term = a[2], a[1]
        ok = is_field(term, "term") and is_field(term.a[0], "sentence") and term.a[0].a[0] is task
        if not ok:
            # prepared pairs
            src = loops.element_of(term.a[0]) if term.op == "field" else None
            if src is not None and term.op == "field" and task.op == "field" and term.a[0] is task.a[0]:
                its = [v for k, v, _ in q.contents(g, src)] if src.op in ("new", "phi") else [src.a[1]] if src.op == "mapped" else []
                ok = bool(its) and all(v.op == "agg" and is_field(v.a[3 + int(term.a[-1])], "term") and v.a[3 + int(term.a[-1])].a[0].a[0] is v.a[3 + int(task.a[-1])] for v in its)
        rep.check(ok, "index", "own", "%s: the task %s is indexed under the subterms of %s" % (e.where, show(task), show(term)))

    def isT(v):
        while v.op == "filtered":
            v = v.a[0]
        return is_field(v, "judgementTasks") or any(v is x or rank.strip(v)[0] is x for x in res)
    rs = kept_each(g, pops, isT)
    if not rs:
        # two steps: every task into a list, every element of the list into the index
        mids = {e.args[2].a[0].a[0] for e in pops if e.args[2].op == "field" and e.args[2].a[0].op == "elem"} | {e.args[2].a[0] for e in pops if e.args[2].op == "elem"}
        for m in mids:
            if m.op == "new":
                ps = [e for e in g.events("call") if e.name in q.PUSH and live(g, e) and e.args[0] is m]
                r1 = kept_each(g, ps, isT)
                r2 = rank.each(g, pops, lambda v: v is m, panics=False)
                if r1 and r2:
                    rs += [(nd, why + r1[0][1]) for nd, why in r2]
            elif m.op == "mapped" and loops.whole(m) is not None and isT(loops.whole(m)):
                rs += rank.each(g, pops, lambda v: v is m or v is loops.whole(m), panics=False)
    if rep.check(bool(rs), "index", "all", "not all tasks are put into the index by term again"):
        for nd, why in rs:
            for x in why:
                rep.bad("index", "all", "a task may be missing in the index by term: %s" % x)
        heads = {nd for nd, _ in rs}
        for f in flush:
            rep.check(not rank.avoid(g, f, heads, rets(g), panics=False), "index", "fill-path", "the index by term is emptied and may not be filled again")
    cuts_after = [(tg, v, e) for tg, v, e in q.writes(g, "judgementTasks") if live(g, e)]
    for tg, v, e in cuts_after:
        for p in pops:
            rep.check(e.node.id not in after(g, p.node.id), "index", "last", "%s: tasks are forgotten after the index was filled" % e.where)
    # concepts
    cc = [e for e in g.events("call") if e.name == LIMC and live(g, e)]
    if rep.check(bool(cc), "calls", "concepts", "the concepts of the declarative reasoner are never limited"):
        for e in cc:
            rep.check(sub(e.args[0], "mem") or is_field(e.args[0], "mem"), "calls", "concepts-own", "%s: the memory limited is %s" % (e.where, show(e.args[0])))
            n = loops.ival(rank.uncast(e.args[1]))
            rep.check(n is None or n > 0, "calls", "concepts-limit", "%s: the concepts are limited to %s" % (e.where, show(e.args[1])))
        for u, x, ds in rank.avoid(g, 0, {e.node.id for e in cc}, rets(g), panics=False):
            for d in ds:
                rep.check(rare(d, 173), "calls", "concepts-whenever", "the concepts may never be limited [%s]" % q.fmt(d))
    # the counter that drives it all
    inc = [e for e in g.events("call") if e.name.endswith("fetch_add") and live(g, e) and sub(e.args[0], "cycleCounter")]
    ok = rep.check(bool(inc), "calls", "counter", "the cycle counter is not advanced")
    for e in inc:
        rep.check(loops.ival(e.args[1]) == 1, "calls", "counter-step", "%s: the cycle counter is advanced by %s" % (e.where, show(e.args[1])))
        rep.check(rank.in_loop(g, e.node) is None and not any(x.node.id in after(g, e.node.id) for x in inc), "calls", "counter-once", "%s: the cycle counter may be advanced more than once in a cycle" % e.where)
    if ok:
        rep.check(not rank.avoid(g, 0, {e.node.id for e in inc}, rets(g), panics=False), "calls", "counter-always", "a cycle may not advance the cycle counter")


def same_time(g, s, x, ds, counter):
    """the flush is skipped only if the very counter test that allowed the limit failed (which happens only if the counter was read again)"""
    a = {residue(v, p, counter) for d in q._fs(g, g.nodes[s].facts) for v, p in d} - {None}
    b = set()
    for d in ds:
        for v, p in d:
            r = residue(v, not p, counter)
            if r:
                b.add(r)
    return bool(a & b)


def poor(rep, g, fs, where):
    """only tasks with (almost) no credit are dropped by a filter"""
    for r in fs:
        for d in rank.truths(g, r, False):
            ok = False
            for v, p in d:
                c = rank.less(v, p)
                if c and call(c[0], CREDIT):
                    try:
                        ok |= float(c[1].a[1]) <= 0.01 if c[1].op == "const" else True
                    except (ValueError, TypeError):
                        ok = True
            rep.check(ok, "tasks", "poor", "%s: tasks with credit may be dropped [%s]" % (where, q.fmt(d)))


# ---------------------------------------------------------------- the procedural reasoner
def step(rep):
    g = rep.graph(STEP, atoms=[LIMG, LIMC] + [f for f in rep.c.fns if f.startswith(G) and f not in (LIMG,) and "{" not in f] + ["Term::checkEqTerm"] + STR)
    t = lambda v: sub(v, "t")
    for f, nm, most in ((LIMG, "goals", 13), (LIMC, "concepts", 101)):
        es = [e for e in g.events("call") if e.name == f and live(g, e)]
        if not rep.check(bool(es), "calls", nm, "the %s of the procedural reasoner are never limited" % nm):
            continue
        for e in es:
            if f == LIMC:
                rep.check(is_field(e.args[0], "evidenceMem") and is_field(rank.uncast(e.args[1]), "cfg__nConcepts"), "calls", nm + "-args", "%s: %s is limited to %s" % (e.where, show(e.args[0]), show(e.args[1])))
            else:
                rep.check(is_field(e.args[0], "goalSystem") and t(e.args[2]), "calls", nm + "-args", "%s: %s is limited at the time %s" % (e.where, show(e.args[0]), show(e.args[2])))
        for u, x, ds in rank.avoid(g, 0, {e.node.id for e in es}, rets(g), panics=False):
            for d in ds:
                rep.check(best.has(d, lambda v, p: every_so_often(v, p, t, most)), "calls", nm + "-whenever", "the %s may never be limited [%s]" % (nm, q.fmt(d)))


def check(rep):
    goals(rep)
    concepts(rep)
    tasks(rep)
    step(rep)
