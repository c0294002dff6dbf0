"""C15: decision making picks the best goal and executes its operation."""
import adt
import best
import loops
import q
import rank
from c13 import is_field, g_alts, low
from vg import show, kids, V

LEVEL = "other"
RULE = ("Candidates: an (exp, entry, unified term) is taken from all goals whose sequence ends with an op and whose remainder unifies with the state, replaced only by and by everything with more expectation. "
        "Step: the state is looked up for the newest cfgPerceptWindow events; sequence, expectation and evidence of the best candidate come from the same candidate; above the threshold the last element of its sequence becomes a goal with "
        "truth value and stamp of its evidence. Execution: the goal executed is the desired active goal with greatest expectation above the threshold, it loses its desirability and leaves the active set, on every path; babbling only "
        "if no goal was executed, it is enabled and the op allows it; the op called is the registered one of the decoded name with the decoded arguments, and is recorded in the trace on every path.")
ASSUME = ["the trace implementation installed is the only one in the crate (TraceDefault)", "infGoalBelief, decodeOp, unify are decided by C02/C05, C08, C07"]
P, G = "NarProc::", "NarGoalSystem::"
STEP, SEL, BYNAME = P + "narStep1", G + "selHighestExpGoalByState", P + "ret_op_by_name"
DEC, ENC, EXP, TV, UNI, SUB = "TermUtils::decodeOp", "TermUtils::encodeOp", "Tv::calcExp", "NarSentence::retTv", "NarUnify::unify", "NarUnify::unifySubst"
ADD, QUERY, ANTE, INFGB = G + "addEntry", G + "query", G + "query_by_antecedent", "NarInfProcedural::infGoalBelief"
CALL = P + "Op::call"
ATOMS = [SEL, ADD, QUERY, ANTE, G + "sampleAndInference", G + "limitMemory", INFGB, DEC, ENC, BYNAME, "NarMem::limitMemory", EXP, TV, "Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"]


def call(v, name):
    return v.op == "call" and v.a[0] == name


def payload(v):
    """x of Some(x) unwrapped"""
    return v.a[0] if v.op == "vfield" and v.a[1] == "Some" else None


def exp_of(v):
    """the sentence whose expectation v is"""
    if call(v, EXP):
        t = v.a[1]
        t = payload(t) or t
        if call(t, TV):
            return t.a[1]
    return None


def rets(g):
    return {r.id for r in g.root.retnodes}


def none(f):
    return lambda d: best.has(d, lambda v, p: best.is_none(v, p, f))


# ---------------------------------------------------------------- ops
def finder(rep):
    """the op returned by name has that name; None only if no op has it"""
    if BYNAME not in rep.c.fns:
        return
    g = rep.graph(BYNAME)
    nar, name = adt.param(g, 1), adt.param(g, 2)
    ops = g.field(nar, "ops")
    same = lambda v, p, e: v.op == "bin" and v.a[0] in ("Eq", "Ne") and p == (v.a[0] == "Eq") and {call(k, P + "Op::retName") and k.a[1] is e or k is name for k in kids(v)} == {True}
    n = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            var, _ = q.variant_of(d, v)
            if v.op == "found":
                n += 1
                rep.check(v.a[0] is ops and any(same(x, p, y) for ds in rank.truths(g, v.a[1], True) for x, p in ds for y in q.subs(x)), "op-by-name", "name", "%s: the op found is %s" % (e.where, show(v)))
                continue
            if v.op == "agg" and v.a[1] == "Some":
                n += 1
                x = v.a[3]
                rep.check(loops.element_of(x) is ops, "op-by-name", "registered", "%s: the op returned is %s" % (e.where, show(x)))
                nm = any(same(y, p, x) for y, p in d)
                if x.op == "idx" and payload(x.a[1]) is not None and payload(x.a[1]).op == "position":
                    ps = payload(x.a[1])
                    nm = ps.a[0] is ops and all(any(same(y, p, ps.a[2]) for y, p in z) for z in rank.truths(g, ps.a[1], True))
                rep.check(nm, "op-by-name", "name", "%s: an op is returned which is not known to have the name [%s]" % (e.where, q.fmt(d)))
    rep.floor("op-by-name", n, 1, "ops returned by name")
    for l in loops.loops(g):
        if any(x is ops for x in l.sources()):
            for u, x, d in l.early():
                if g.nodes[x].facts:
                    rep.check(best.has(d, lambda v, p: v.op == "bin" and v.a[0] in ("Eq", "Ne") and p == (v.a[0] == "Eq")), "op-by-name", "all", "the search for the op ends early [%s]" % q.fmt(d))


def decoded(v, part):
    """the term of which v is the decoded name (part "1") or arguments (part "0")"""
    if v.op == "field" and v.a[-1] == part:
        x = payload(v.a[0])
        if x is not None and call(x, DEC):
            return x.a[1]
    return None


def receiver(g, v):
    """name by which the called op was looked up"""
    x = payload(v) or v
    if call(x, BYNAME):
        return [x.a[2]]
    out = []
    if x.op == "found" and is_field(x.a[0], "ops"):
        for d in rank.truths(g, x.a[1], True):
            out += [k for v, p in d if v.op == "bin" and v.a[0] == "Eq" and p for k in kids(v) if not call(k, P + "Op::retName")]
    return out


def op_calls(rep):
    fns = set(q.direct_sites(rep.c, [CALL]))
    rep.floor("op-call", len(fns), 2, "functions that call ops")
    for f in sorted(fns):
        g = rep.graph(f, atoms=[a for a in ATOMS if a != f])
        es = [e for e in g.events("call") if e.name == CALL and g.nodes[e.node.id].facts]
        for e in es:
            ns = receiver(g, e.args[0])
            ts = [decoded(n, "1") for n in ns]
            ta = decoded(e.args[3], "0")
            if not rep.check(bool(ns), "op-call", "registered:" + f, "%s: the op called is %s, not one looked up by name" % (e.where, show(e.args[0]))):
                continue
            rep.check(all(t is not None for t in ts), "op-call", "name:" + f, "%s: the op is looked up by %s" % (e.where, [show(n) for n in ns]))
            rep.check(ta is not None and all(t is ta for t in ts), "op-call", "arguments:" + f, "%s: the arguments are %s" % (e.where, show(e.args[3])))
            rep.check(is_param(e.args[1]) and is_param(e.args[2]), "op-call", "context:" + f, "%s: the op is called with %s, %s" % (e.where, show(e.args[1]), show(e.args[2])))


def at(v):
    """constant position (from the begin) of an element"""
    if v.op == "cidx":
        return None if v.a[2] else v.a[1]
    return loops.ival(v.a[1]) if v.op == "idx" else None


def is_param(v):
    return v.op == "param" or v.op == "field" and is_param(v.a[0])


def inject(rep):
    f = [x for x in rep.c.fns if x.endswith("Op_nal9__exec_and_inject::call")]
    f = f or [x for x in rep.c.fns if "exec_and_inject" in x and x.endswith("::call")]
    if not rep.check(bool(f), "op-inject", "anchor", "the op ^nal9_exeAndInject has no call function"):
        return
    g = rep.graph(f[0], atoms=ATOMS)
    args = adt.param(g, 4)
    es = [e for e in g.events("call") if e.name == CALL]
    tm = [decoded(e.args[3], "0") for e in es]
    for e, t in zip(es, tm):
        if t is None:
            continue
        src = loops.element_of(t)
        s = src
        while s is not None and s.op == "mapped":
            s = s.a[0]
        if s is not None and s.op == "new":
            cs = q.contents(g, s)
            its = {loops.element_of(z) for k, z, _ in cs}
            s = its.pop() if len(its) == 1 and None not in its else s
            if s.op != "new":
                r = rank.each(g, [ev for k, z, ev in cs], lambda x: x is s)
                rep.check(bool(r) and not any(rs for _, rs in r) and all(ev.name in ("Vec::push", "VecDeque::push_back") and best.loop_order(g, ev.node, s) != "rev" for k, z, ev in cs), "op-inject", "copy", "%s: the ops executed are not all of the sequence in its order" % e.where)
        isseq = s is not None and s.op == "vfield" and s.a[1] == "Seq" and loops.element_of(s.a[0]) is args and at(s.a[0]) == 1
        if not rep.check(isseq, "op-inject", "sequence", "%s: the op executed is %s, not one of the sequence" % (e.where, show(t))):
            continue
        r = rank.each(g, [e], lambda x: x is s or x is src, excuse=lambda d: best.has(d, lambda v, p: best.is_none(v, p, lambda o: call(o, DEC) or call(o, BYNAME) or o.op == "found")))
        rep.check(bool(r), "op-inject", "all", "%s: the ops of the sequence are not executed in a loop" % e.where)
        for nd, rs in r:
            for x in rs:
                rep.bad("op-inject", "skip", "%s: an op of the sequence may not be executed: %s" % (e.where, x))
        rep.check(adt.ordered(src) and all(best.loop_order(g, e.node, x) != "rev" for x in (s, src)), "op-inject", "order", "%s: the ops are executed in another order" % e.where)
    ps = trace_pushes(g)
    good = []
    for e, n, t1, t2 in ps:
        ok = loops.element_of(n) is args and at(n) == 2
        rep.check(ok, "op-inject", "event", "%s: the event injected is %s" % (e.where, show(n)))
        rep.check(is_field(t1, "t") and is_field(t2, "t"), "op-inject", "time", "%s: the event occurs at %s" % (e.where, show(t2)))
        good.append(e.node.id)
    if rep.check(bool(good), "op-inject", "inject", "no event is injected") and es:
        for u, x, ds in rank.avoid(g, es[0].node.id, set(good), rets(g)):
            rep.bad("op-inject", "path", "ops are executed but the event is not injected [%s]" % q.fmt(ds[0]))


def trace_pushes(g):
    out = []
    for e in g.events("call"):
        if e.name in q.PUSH and is_field(e.args[0], "trace") and g.nodes[e.node.id].facts:
            for v in [e.args[1]] if e.args[1].op == "agg" else g.expand(e.args[1]):
                if v.op == "agg" and str(v.a[0]).endswith("SimpleSentence"):
                    f = dict(zip(v.a[2], v.a[3:]))
                    out.append((e, f["name"], f["evi"], f["occT"]))
    return out


# ---------------------------------------------------------------- candidates of a state
def select(rep):
    g = rep.graph(SEL, atoms=[EXP, TV, UNI, SUB, DEC, G + "retEntries"])
    gs, state = adt.param(g, 1), adt.param(g, 2)
    ents = lambda v: call(v, G + "retEntries") and v.a[1] is gs
    ret = [e for e in g.events("return") if g.nodes[e.node.id].facts]
    n = 0
    upd = set()
    es = None
    for pr, x, R in [(pr, x, e.val) for e in ret for pr, x in best.leaves(g, g.field(e.val, "1"))]:
        if x.op == "agg" and x.a[1] == "None":
            continue
        if not (x.op == "agg" and x.a[1] == "Some"):
            rep.bad("candidate", "result", "the candidate returned is %s" % show(x))
            continue
        n += 1
        upd.add(pr)
        ent, term = g.field(x.a[3], "0"), g.field(x.a[3], "1")
        coll = loops.element_of(ent)
        if not rep.check(coll is not None and ents(coll), "candidate", "entry", "the candidate is %s, not one of the goals" % show(ent)):
            continue
        keys = [v for v in list(g.pool.t.values()) if exp_of(v) is not None and is_field(exp_of(v), "sentence") and exp_of(v).a[0] is ent]
        X = g.field(R, "0")
        if not rep.check(bool(keys), "candidate", "expectation", "the expectation of the goals is not computed"):
            continue
        key = keys[0]
        es = (ent, coll, key)
        for p2, w in best.leaves(g, X):
            rep.check(w is key or low(w), "candidate", "expectation", "the expectation of the candidate is %s" % show(w))
            ls = [l for l in loops.loops(g) if pr in l.body]
            if w is key and ls:
                rep.check(best_together(g, {p for p, y in best.leaves(g, g.field(R, "1"))}, p2, ls[0]), "candidate", "together", "the candidate and its expectation are not kept together")
        terms = [y for _, y in best.leaves(g, term)]
        okt = bool(terms)
        for y in terms:
            okt = rep.check(call(y, SUB) and is_field(y.a[1], "term") and best.root(y.a[1]) is best.root(ent), "candidate", "unified", "the term of the candidate is %s, not its sequence with the variables replaced" % show(y)) and okt
        T = g.field(g.field(ent, "sentence"), "term")
        seq = g.vfield(T, "Seq", "0")
        isrun = lambda r: is_running(g, r, key) or any(best.root(r) is z and r is not z for z in best.chain(g, best.root(g.field(R, "1"))))
        for d in q._fs(g, g.OUT.get(pr) or []):
            us = [v for v, p in d if best.is_some(v, p, lambda o: call(o, UNI))]
            us = [v.a[0] for v in us]
            if rep.check(bool(us), "candidate", "unifies", "a goal becomes a candidate without its condition unifying with the state [%s]" % q.fmt(d)):
                u = us[0]
                rep.check(u.a[2] is state, "candidate", "state", "the condition is unified with %s" % show(u.a[2]))
                rep.check(prefix(g, u.a[1], seq), "candidate", "condition", "what is unified with the state is %s, not all but the last element of the sequence" % show(u.a[1], 6))
                if okt:
                    rep.check(all(payload(y.a[2]) is u or y.a[2] is u for y in terms), "candidate", "assignment", "the variables are replaced by %s" % [show(y.a[2]) for y in terms])
            rep.check(best.has(d, lambda v, p: best.is_some(v, p, lambda o: call(o, DEC) and last_of(g, o.a[1], seq))), "candidate", "op", "a goal becomes a candidate though its sequence may not end with an op [%s]" % q.fmt(d))
            rep.check(best.greater(g, d, key, isrun), "candidate", "greater", "a candidate is replaced by one not known to have more expectation [%s]" % q.fmt(d))
    rep.floor("candidate", n, 1, "settings of the candidate")
    if es is None:
        return
    ent, coll, key = es
    ls = [l for l in loops.loops(g) if any(ents(x) for x in l.sources())]
    if not rep.check(bool(ls), "candidate", "all", "not all goals are considered"):
        return
    l = ls[0]
    for u, x, d in l.early():
        if g.nodes[x].facts:
            rep.bad("candidate", "early", "the search for the best candidate ends early [%s]" % q.fmt(d))
    T = g.field(g.field(ent, "sentence"), "term")
    seq = g.vfield(T, "Seq", "0")

    def excuse(d):
        return best.has(d, lambda v, p: best.is_none(v, p, lambda o: call(o, UNI) or call(o, DEC)) or v.op == "isv" and v.a[0] is T and (v.a[1] == "Seq") != p or (lambda c: c and (c[0] is key or loops.len_of(c[0]) is seq))(rank.less(v, p)) or
                        v.op == "call" and v.a[0].endswith("is_empty") and p or v.op == "bin" and v.a[0] == "Eq" and p and any(loops.len_of(k) is seq for k in kids(v)) and any(loops.ival(k) == 0 for k in kids(v)))
    for u, x, ds in rank.avoid(g, l.head, upd, {l.head}, l.body):
        for d in ds:
            if not l.exhausted(d):
                rep.check(rank.known(g, d, excuse), "candidate", "skip", "a goal with more expectation may be passed over [%s]" % q.fmt(d))


def last_of(g, v, seq):
    """v is the last element of seq"""
    if v.op in ("idx", "cidx") and v.a[0] is seq:
        if v.op == "cidx":
            return v.a[2] and v.a[1] == 1
        m = adt.linear(g, v.a[1])
        return {(k if not isinstance(k, V) else ("len" if loops.len_of(k) is seq else k)): c for k, c in m.items()} == {"len": 1, 1: -1}
    if v.op == "vfield" and v.a[1] == "Some" and call(v.a[0], "slice::last") and v.a[0].a[1] is seq:
        return True
    return call(v, "slice::last") and v.a[1] is seq


def prefix(g, v, seq):
    """v is the sequence without its last element (its only element if one remains)"""
    def cut(x):
        if x.op == "subslice":
            return x.a[0] is seq and x.a[1] == (0, 1) and bool(x.a[2])
        x, lim = rank.strip(x)
        if x is not seq or len(lim) != 1 or lim[0][0] != "prefix":
            return False
        m = adt.linear(g, lim[0][1])
        return {(k if not isinstance(k, V) else ("len" if loops.len_of(k) is seq else k)): c for k, c in m.items()} == {"len": 1, 1: -1}
    leaves = g.expand(v)
    good = True
    n = lambda w, k: how_long(g, w, k, seq, cut)
    for pr, x in (best.leaves(g, v) if v.op == "phi" else []):
        # one element stands for itself, several are a sequence
        single = x.op in ("idx", "cidx")
        if not (single or x.op == "agg" and x.a[1] == "Seq"):
            continue
        for d in q._fs(g, g.OUT.get(pr) or []):
            fit = [k for k in range(1, 9) if all(holds(w, p, lambda y: n(y, k)) is not False for w, p in d)]
            if single and fit != [2] or not single and 2 in fit:
                return False
    if v.op == "agg" and v.a[1] == "Seq":
        return False
    for x in leaves:
        if x.op == "agg" and x.a[1] == "Seq":
            y = x.a[3]
            base = y
            while base.op == "mapped":
                base = base.a[0]
            if cut(base) or cut(y):
                continue
            f, why = None, None
            c = q.contents(g, y)
            it = [z for k, z, e in c]
            if it and all(el(z, cut) for z in it):
                continue
            good = False
        elif x.op in ("idx", "cidx") and (cut(x.a[0]) or v.op == "phi" and x.a[0] is seq and not (x.op == "cidx" and x.a[2])) and at(x) == 0:
            continue
        else:
            good = False
    return good and bool(leaves)


def how_long(g, w, k, seq, cut):
    """the value of a number if the sequence has k elements"""
    c = loops.ival(w)
    if c is not None:
        return c
    l = loops.len_of(w)
    if l is not None:
        if l is seq:
            return k
        if cut(l):
            return k - 1
    if w.op == "cast":
        return how_long(g, w.a[1], k, seq, cut)
    if w.op == "bin" and w.a[0] in ("Add", "Sub"):
        a, b = how_long(g, w.a[1], k, seq, cut), how_long(g, w.a[2], k, seq, cut)
        if a is not None and b is not None:
            return a + b if w.a[0] == "Add" else a - b
    if w.op == "call" and w.a[0].endswith("is_empty") and len(w.a) > 1 and (w.a[1] is seq or cut(w.a[1])):
        return int((k if w.a[1] is seq else k - 1) == 0)
    return None


def holds(v, p, n):
    if v.op == "bin" and v.a[0] in ("Eq", "Ne", "Lt", "Le"):
        a, b = n(v.a[1]), n(v.a[2])
        if a is None or b is None:
            return None
        r = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b}[v.a[0]]
        return r is p
    r = n(v)
    return None if r is None else bool(r) is p


def el(z, cut):
    e = loops.element_of(z)
    return e is not None and cut(e)


# ---------------------------------------------------------------- the step
def step(rep):
    g = rep.graph(STEP, atoms=ATOMS)
    nar = adt.param(g, 1)
    deliberate(rep, g, nar)
    execute(rep, g, nar)


def above(g, d, isexp):
    """the facts say that an expectation accepted by isexp is above the threshold"""
    return rank.known(g, d, lambda x: best.has(x, lambda v, p: (lambda c: c is not None and is_field(c[0], "cfgDescnThreshold") and isexp(c[1]))(rank.less(v, p))))


def deliberate(rep, g, nar):
    adds = [e for e in g.events("call") if e.name == ADD and g.nodes[e.node.id].facts]
    if not rep.check(bool(adds), "decide", "goal", "the best candidate never becomes a goal"):
        return
    for e in adds:
        s, ev = e.args[3], e.args[4]
        if not rep.check(s.op == "agg" and str(s.a[0]).endswith("Sentence"), "decide", "goal-sentence", "%s: the goal is %s" % (e.where, show(s))):
            continue
        f = dict(zip(s.a[2], s.a[3:]))
        t = f["term"]
        seq = t.a[0] if t.op in ("idx", "cidx") else None
        if not rep.check(seq is not None and last_of(g, t, seq) and seq.op == "vfield" and seq.a[1] == "Seq", "decide", "goal-term", "%s: the goal added is %s, not the last element of the sequence" % (e.where, show(t))):
            continue
        X = seq.a[0]
        B = best.root(X)
        evi = ev.a[3] if ev.op == "agg" and ev.a[1] == "Some" else None
        if not rep.check(evi is not None and best.root(evi) is B, "decide", "goal-evidence", "%s: the evidence of the goal is %s" % (e.where, show(ev))):
            continue
        rep.check(is_field(f["stamp"], "stamp") and f["stamp"].a[0] is evi, "decide", "goal-stamp", "%s: the stamp of the goal is %s" % (e.where, show(f["stamp"])))
        tvs = [x for x in q.subs(f["evi"]) if call(x, TV)]
        rep.check(len(tvs) == 1 and tvs[0].a[1] is evi and f["evi"].op == "agg" and f["evi"].a[1] == "Some", "decide", "goal-tv", "%s: the truth value of the goal is %s" % (e.where, show(f["evi"])))
        rep.check(f["punct"].op == "agg" and f["punct"].a[1] == "GOAL", "decide", "goal-punctuation", "%s: it is added as %s" % (e.where, show(f["punct"])))
        rep.check(is_field(e.args[2], "t") and e.args[2].a[0] is nar, "decide", "goal-time", "%s: the goal is added for the time %s" % (e.where, show(e.args[2])))
        E = None
        for d in g.facts_at(e.node):
            es = [c[1] for c in (rank.less(v, p) for v, p in d) if c and is_field(c[0], "cfgDescnThreshold") and best.root(c[1]) is B]
            if rep.check(bool(es), "decide", "threshold", "%s: the goal is added though its expectation may not exceed the decision threshold [%s]" % (e.where, q.fmt(d))):
                E = es[0]
        if E is None or B.op != "phi":
            rep.check(B.op == "phi", "decide", "best", "%s: the decision is made for %s" % (e.where, show(B)))
            continue
        # whenever there is a best one above the threshold
        EV = evi.a[0] if evi.op == "vfield" else evi
        exc = lambda d: best.has(d, lambda v, p: best.is_none(v, p, lambda o: o is B or o is EV) or (lambda c: c and c[0] is E and is_field(c[1], "cfgDescnThreshold"))(rank.less(v, p)))
        for u, x, ds in rank.avoid(g, 0, {e.node.id}, rets(g), panics=False):
            for d in ds:
                rep.check(rank.known(g, d, exc), "decide", "skip", "%s: the best candidate may not become a goal [%s]" % (e.where, q.fmt(d)))
        candidates(rep, g, nar, e, B, X, E, EV)


def candidates(rep, g, nar, e, B, X, E, EV):
    ch = best.chain(g, B)
    runs = [q.subst(g, E, B, p) for p in ch] + ch
    isrun = lambda r: any(r is y for y in runs)
    byR, queue, chains = {}, {}, {}
    for pr, w in rank.settings(g, B):
        if w.op == "agg" and w.a[1] == "None":
            continue
        sq, ex, ev = q.subst(g, X, B, w), q.subst(g, E, B, w), q.subst(g, EV, B, w)
        evs = evidence_of(g, ev)
        ds = q._fs(g, g.OUT.get(pr) or [])
        src = None
        r = [x for x in q.subs(sq) if call(x, SEL)]
        if r:
            R = r[0]
            src = "state"
            byR.setdefault(R, []).append((pr, ex))
            rep.check(sq.op == "field" and sq.a[-1] == "1" and payload(sq.a[0]) is g.field(R, "1"), "decide-candidate", "sequence", "the sequence of the candidate is %s" % show(sq))
            rep.check(ex is g.field(R, "0"), "decide-candidate", "expectation", "the expectation of the candidate is %s" % show(ex))
            rep.check(bool(evs) and all(has_field(z, "evidence") and any(y is R for y in q.subs(z)) for z in evs), "decide-candidate", "evidence", "the evidence of the candidate is %s" % [show(z) for z in evs])
        elif is_field(sq, "term") and loops.element_of(best.root(sq)) is not None and any(is_field(y, "queuedProcQaBridgeAnswers") for y in q.subs(sq)):
            el_ = best.root(sq)
            src = "answer"
            queue.setdefault(el_, []).append((pr, ex))
            s = exp_of(ex)
            rep.check(s is not None and is_field(s, "answer") and best.root(s) is el_, "decide-candidate", "answer-expectation", "the expectation of the candidate is %s" % show(ex))
            rep.check(bool(evs) and all(best.root(z) is el_ and any(is_field(y, "evidence") for y in q.subs(z)) for z in evs), "decide-candidate", "answer-evidence", "the evidence of the candidate is %s" % [show(z) for z in evs])
            for d in ds:
                rep.check(ends_with_op(g, d, sq), "decide-candidate", "answer-op", "a queued answer becomes a candidate though its sequence may not end with an op [%s]" % q.fmt(d))
        else:
            src = "chain"
            chains.setdefault(sq, []).append((pr, ex))
            planned(rep, g, pr, sq, ex, evs, ds)
        for d in ds:
            rep.check(best.greater(g, d, ex, isrun), "decide-candidate", "greater:" + src, "a candidate replaces the best one though it is not known to have more expectation [%s]" % q.fmt(d))
    rep.floor("decide-candidate", len(byR), 1, "candidates by state")
    rep.floor("decide-candidate", len(queue), 1, "candidates by answers")
    rep.floor("decide-candidate", len(chains), 1, "candidates by prediction")
    heads = {l.head for l in loops.loops(g)}
    for R, ss in byR.items():
        window(rep, g, nar, R)
        ev = [x for x in g.events("call") if x.val is R and x.name == SEL]
        l = rank.in_loop(g, ev[0].node) if ev else None
        if l is None:
            continue
        exc = lambda d: best.has(d, lambda v, p: best.is_none(v, p, lambda o: o is g.field(R, "1"))) or best.not_greater(g, d, g.field(R, "0"), isrun)
        for u, x, ds in rank.avoid(g, ev[0].node.id, {pr for pr, _ in ss}, {l.head} | rets(g), l.body):
            for d in ds:
                rep.check(rank.known(g, d, exc), "decide-candidate", "skip:state", "a better candidate may be passed over [%s]" % q.fmt(d))
    for el_, ss in queue.items():
        coll = loops.element_of(el_)
        ls = [l for l in loops.loops(g) if any(x is coll for x in l.sources())]
        if not rep.check(bool(ls), "decide-candidate", "all:answer", "not all queued answers are considered"):
            continue
        exs = [x for _, x in ss]
        def exc(d):
            return any(best.not_greater(g, d, x, isrun) for x in exs) or best.has(d, lambda v, p: best.is_none(v, p, lambda o: call(o, DEC)) or v.op == "isv" and v.a[1] == "Seq" and not p)
        for u, x, ds in rank.avoid(g, ls[0].head, {pr for pr, _ in ss}, {ls[0].head}, ls[0].body):
            for d in ds:
                if not ls[0].exhausted(d):
                    rep.check(rank.known(g, d, exc), "decide-candidate", "skip:answer", "a better answer may be passed over [%s]" % q.fmt(d))


def evidence_of(g, v):
    """what an optional evidence can be (without its absence)"""
    out = []
    for x in g_alts(g, v):
        if x.op == "agg" and x.a[1] == "None":
            continue
        out.append(x.a[3] if x.op == "agg" and x.a[1] == "Some" else x)
    return out


def has_field(v, name):
    return any(is_field(y, name) for y in q.subs(v))


def ends_with_op(g, d, sq):
    seq = g.vfield(sq, "Seq", "0")
    return rank.known(g, d, lambda x: best.has(x, lambda v, p: best.is_some(v, p, lambda o: call(o, DEC) and last_of(g, o.a[1], seq))))


def planned(rep, g, pr, sq, ex, evs, ds):
    """a candidate found by predicting a chain of events up to a goal"""
    t = payload(sq) or sq
    terms = [x for p_, x in best.somes(g, t)[0]] if t.op == "phi" else [sq]
    inf = []
    for x in terms:
        ok = is_field(x, "term") and payload(x.a[0]) is not None and call(payload(x.a[0]), INFGB)
        rep.check(ok, "plan", "sequence", "the sequence of a planned candidate is %s" % show(x))
        if ok:
            inf.append(payload(x.a[0]))
    if not inf:
        return
    I = inf[0]
    goal, bel = I.a[1], I.a[2]
    ev = loops.element_of(bel)
    base, lim = rank.strip(ev) if ev is not None else (None, [])
    if rep.check(base is not None, "plan", "belief", "the belief of the derivation is %s" % show(bel)):
        for x in g.events("call"):
            if x.val is I and x.name == INFGB:
                l = rank.in_loop(g, x.node)
                its = [n.args[0] for n in l.nexts] if l else []
                rep.check(l is not None and all(any(call(y, "Iterator::rev") for y in q.subs(n)) for n in its if any(y is base for y in q.subs(n))), "plan", "order", "%s: the goal is not derived along the chain from its end to its begin" % x.where)
        rep.check(bool(evs) and all(z.op in ("idx", "cidx") and z.a[0] is base and at(z) == 0 for z in evs), "plan", "evidence", "the evidence of a planned candidate is %s, not the first of the chain" % [show(z) for z in evs])
    if goal.op == "agg":
        f = dict(zip(goal.a[2], goal.a[3:]))
        rep.check(f["punct"].op == "agg" and f["punct"].a[1] == "GOAL", "plan", "goal", "what is derived from is %s" % show(f["punct"]))
        vals = g_alts(g, f["term"])
        rep.check(bool(vals), "plan", "goal-term", "the goal derived from is %s" % show(f["term"]))
        for x in vals:
            cond = x.op in ("idx", "cidx") and at(x) == 0 and x.a[0].op == "vfield" and x.a[0].a[1] == "Seq"
            start = not any(call(y, INFGB) for y in q.subs(x))
            rep.check(cond or start, "plan", "goal-term", "the goal carried over is %s, not the condition of the derived sequence" % show(x))
        rep.check(any(any(call(y, INFGB) for y in q.subs(x)) for x in vals), "plan", "goal-carried", "the goal is not carried over from one derivation to the next")
        tvs = [y for x in q.subs(f["evi"]) if x.op == "agg" and x.a[1] == "TV" for y in g_alts(g, x.a[3])]
        if tvs:
            rep.check(any(call(w, INFGB) for y in tvs for w in q.subs(y)), "plan", "tv-carried", "the truth value is not carried over from one derivation to the next")
        chain(rep, g, base, I)
    # expectation of the result of the last derivation
    x = ex
    if rep.check(call(x, EXP), "plan", "expectation", "the expectation of a planned candidate is %s" % show(x)):
        for y in g_alts(g, x.a[1]):
            y = payload(y) or y
            z = y.a[1] if call(y, TV) else None
            ok = z is not None and (payload(z) is I or call(z, INFGB) or any(call(w, QUERY) for w in q.subs(z)))
            rep.check(ok, "plan", "expectation", "the expectation of a planned candidate is that of %s" % show(y))
        ys = g_alts(g, x.a[1])
        rep.check(any(call(w, INFGB) for y in ys for w in q.subs(y)), "plan", "expectation", "the expectation of a planned candidate is not that of what was derived")
    rep.check(any(not any(impossible(v, p) for v, p in d) for d in ds), "plan", "ever", "a plan can't ever hit a goal: the step at which it is looked for is never reached")
    for d in ds:
        rep.check(best.has(d, lambda v, p: best.is_some(v, p, lambda o: call(o, QUERY))), "plan", "hit", "a planned candidate is used though the prediction may not hit a goal [%s]" % q.fmt(d))
        rep.check(ends_with_op(g, d, sq), "plan", "op", "a planned candidate may not end with an op [%s]" % q.fmt(d))


def impossible(v, p):
    """a comparison of a counter of a fixed range with a number outside of it"""
    c = rank.less(v, p)
    if c is None:
        return False
    lo, hi, strict = c

    def rng(x):
        x = rank.uncast(x)
        if x.op == "elem" and x.a[0].op == "agg" and x.a[0].a[0].endswith("range::Range"):
            a, b = loops.ival(x.a[0].a[3]), loops.ival(x.a[0].a[4])
            return (a, b - 1) if a is not None and b is not None else None
        k = loops.ival(x)
        return (k, k) if k is not None else None
    a, b = rng(lo), rng(hi)
    return a is not None and b is not None and (a[0] >= b[1] if strict else a[0] > b[1])


def chain(rep, g, base, I):
    """the chain consists of rules each of which starts from what the one before predicts"""
    if base is None or base.op != "new":
        return
    for e in g.events("call"):
        if not (e.name in q.PUSH and e.args[0] is base and g.nodes[e.node.id].facts):
            continue
        r = e.args[1]
        src = [x for x in q.subs(r) if call(x, ANTE)]
        if not rep.check(bool(src) and r.op in ("idx", "elem", "vfield", "cidx", "phi"), "plan", "chain", "%s: what is added to the chain is %s, not a rule which follows from what is predicted" % (e.where, show(r))):
            continue
        P_ = src[0].a[1]
        ss = rank.settings(g, P_) if P_.op == "phi" else []
        if not rep.check(bool(ss), "plan", "predicted", "%s: what is predicted is always %s" % (e.where, show(P_))):
            continue
        cons = lambda w: w.op == "vfield" and w.a[1] == "Stmt" and w.a[2] == "2" and is_field(w.a[0], "term") and w.a[0].a[0] is r
        rep.check(any(cons(w) for _, w in ss), "plan", "predicted", "%s: what is predicted next is not the consequence of the rule added to the chain but %s" % (e.where, [show(w) for _, w in ss]))
        for _, w in ss:
            rep.check(cons(w) or w is P_ or is_field(w, "name"), "plan", "predicted", "%s: what is predicted is %s" % (e.where, show(w)))
        hit = [v for v in g.pool.t.values() if call(v, QUERY)]
        rep.check(any(v.a[2] is P_ for v in hit), "plan", "hit", "it's not what was predicted that is looked for among the goals")


def window(rep, g, nar, R):
    st = R.a[2]
    if not rep.check(is_field(st, "name"), "decide-window", "state", "the state looked up is %s" % show(st)):
        return
    newest(rep, g, st.a[0], loops.element_of(st.a[0]))


def newest(rep, g, x, view):
    """x, an element of view, ranges over the newest cfgPerceptWindow events"""
    base, lim = rank.strip(view) if view is not None else (None, [])
    rep.check(view is not None, "decide-window", "event", "the state looked up is that of %s" % show(x))
    if x.op == "idx" and not lim:
        m = adt.linear(g, x.a[1])
        keys = {("len" if isinstance(k, V) and loops.len_of(k) is view else "i" if isinstance(k, V) else k): c for k, c in m.items()}
        rep.check(keys in ({"len": 1, 1: -1, "i": -1},), "decide-window", "newest", "the event looked up is at %s, not counted from the newest one" % show(x.a[1]))
        for k in m:
            if isinstance(k, V) and k.op == "elem" and k.a[0].op == "agg":
                f = dict(zip(k.a[0].a[2], k.a[0].a[3:]))
                rep.check(loops.ival(f["start"]) == 0, "decide-window", "first", "the newest event is not looked up: from %s" % show(f["start"]))
                rep.check(any(is_field(y, "cfgPerceptWindow") for y in q.subs(f["end"])), "decide-window", "size", "the number of events looked up is %s" % show(f["end"]))
    elif lim:
        kinds = [k for k, _ in lim]
        rep.check("rev" in kinds and kinds.index("rev") == len(kinds) - 1, "decide-window", "newest", "the events looked up are %s" % show(view))
        for k, n in lim:
            if k == "prefix":
                rep.check(any(is_field(y, "cfgPerceptWindow") for y in q.subs(n)), "decide-window", "size", "the number of events looked up is %s" % show(n))


# ---------------------------------------------------------------- execution
def execute(rep, g, nar):
    calls = [e for e in g.events("call") if e.name == CALL and g.nodes[e.node.id].facts]
    if not rep.check(len(calls) >= 1, "execute", "call", "no op is called"):
        return
    for e in calls:
        rep.check(not any(e.node.id in l.body for l in loops.loops(g)), "execute", "once", "%s: more than one op may be executed in a step" % e.where)
        T = decoded(e.args[3], "0")
        if T is None:
            continue
        # recorded
        ps = [(x, n, a, b) for x, n, a, b in trace_pushes(g)]
        good = {x.node.id for x, n, a, b in ps if n is T}
        for x, n, a, b in ps:
            rep.check(n is T, "execute", "record-term", "%s: the event recorded is %s, not the op executed" % (x.where, show(n)))
            for y in (a, b):
                rep.check(is_field(y, "t") and y.a[0] is nar, "execute", "record-time", "%s: the execution is recorded for %s, not the current time" % (x.where, show(y)))
        if rep.check(bool(good), "execute", "record", "%s: the execution is not recorded in the trace" % e.where):
            for u, x, ds in rank.avoid(g, e.node.id, good, rets(g)):
                rep.bad("execute", "record-path", "%s: the execution may not be recorded [%s]" % (e.where, q.fmt(ds[0])))
            for n in good:
                if adt.skips(g, 0, None, e.node.id, {n}) and adt.skips(g, n, None, e.node.id, rets(g)):
                    rep.bad("execute", "record-only", "an op may be recorded which was not executed")
        V_ = payload(T)
        if not rep.check(V_ is not None and V_.op == "phi", "execute", "picked", "%s: the op executed is %s" % (e.where, show(T))):
            continue
        goals, babbles = [], []
        ss, _ = best.somes(g, V_)
        for pr, x in ss:
            if call(x, ENC):
                babbles.append((pr, x))
            elif is_field(x, "term") and is_field(x.a[0], "sentence"):
                goals.append((pr, x))
            else:
                rep.bad("execute", "picked", "the op executed is %s" % show(x))
        # whatever was picked is executed, if it is registered
        exc = none(lambda o: call(o, BYNAME) or call(o, DEC) or o.op == "found" or any(o is y for y in best.chain(g, V_)))
        for pr, x in ss:
            for u, y, ds in rank.avoid(g, pr, {e.node.id}, rets(g)):
                for d in ds:
                    rep.check(rank.known(g, d, exc), "execute", "unexecuted", "the op picked may not be executed [%s]" % q.fmt(d))
        if rep.check(bool(goals), "execute", "goal", "no op of a goal is executed"):
            chosen(rep, g, nar, e, V_, goals)
        babble(rep, g, nar, V_, goals, babbles)


def babble(rep, g, nar, V_, goals, babbles):
    ch = best.chain(g, V_)
    for pr, x in babbles:
        names = [y for y in q.subs(x) if call(y, P + "Op::retName")]
        if not rep.check(len(names) == 1 and loops.element_of(names[0].a[1]) is not None and is_field(loops.element_of(names[0].a[1]), "ops"), "babble", "op", "the op babbled is %s" % show(x)):
            continue
        op = names[0].a[1]
        args = [z for k, z, e in q.contents(g, x.a[1])] if x.a[1].op != "agg" else list(x.a[1].a[3:])
        rep.check(bool(x.a[2] is names[0]), "babble", "name", "the name of the op babbled is %s" % show(x.a[2]))
        for d in q._fs(g, g.OUT.get(pr) or []):
            rep.check(rank.known(g, d, lambda y: best.has(y, lambda v, p: is_field(v, "cfgEnBabbling") and p)), "babble", "enabled", "an op may be babbled though babbling is disabled [%s]" % q.fmt(d))
            rep.check(rank.known(g, d, lambda y: best.has(y, lambda v, p: call(v, P + "Op::isBabbleable") and p and v.a[1] is op)), "babble", "allowed", "an op may be babbled that does not allow it [%s]" % q.fmt(d))
            rep.check(rank.known(g, d, lambda y: best.has(y, lambda v, p: best.is_none(v, p, lambda o: any(o is z for z in ch)))), "babble", "no-goal", "an op may be babbled in place of that of a goal [%s]" % q.fmt(d))


def chosen(rep, g, nar, e, V_, goals):
    ents = {}
    for pr, x in goals:
        ents.setdefault(x.a[0].a[0], []).append(pr)
    for E, prs in ents.items():
        C = best.root(E)
        if C.op != "phi":
            act = [y for y in q.subs(E) if is_field(y, "activeSet")]
            rep.check(bool(act) and any(y.op == "call" and y.a[0] in ("Iterator::max_by", "Iterator::max_by_key") for y in q.subs(E)) and any(call(y, EXP) for y in q.subs(E)), "execute-best", "chosen", "the goal executed is %s" % show(E))
            continue
        ss = best.leaves(g, E)
        ups = {p for p, _ in ss}
        l = key = None
        for pr, x in ss:
            coll = loops.element_of(x)
            if not rep.check(coll is not None and is_field(coll, "set") and is_field(coll.a[0], "activeSet"), "execute-best", "active", "the goal executed is %s, not one of the active goals" % show(x)):
                continue
            keys = [v for v in list(g.pool.t.values()) if exp_of(v) is not None and is_field(exp_of(v), "sentence") and exp_of(v).a[0] is x]
            if not rep.check(bool(keys), "execute-best", "expectation", "the expectation of the active goals is not computed"):
                continue
            key = keys[0]
            ls = [y for y in loops.loops(g) if any(z is coll for z in y.sources()) or any(z is coll for z, _ in y.filtered())]
            ls = [y for y in ls if pr in y.body] or ls
            if not rep.check(bool(ls), "execute-best", "all", "not all active goals are considered"):
                continue
            l = ls[0]
            thr = lambda r: is_field(r, "cfgDescnThreshold")
            desire = lambda d: best.has(d, lambda v, p: (lambda c: c and is_field(c[1], "desirability") and c[1].a[0] is x and c[0].op != "un")(rank.less(v, p)))
            isrun = lambda r: is_running(g, r, key, C)
            for d in q._fs(g, g.OUT.get(pr) or []):
                rep.check(best.greater(g, d, key, isrun), "execute-best", "greater", "the goal executed may not be the one with the greatest expectation [%s]" % q.fmt(d))
                rep.check(rank.known(g, d, desire), "execute-best", "desired", "a goal may be executed which is not desired [%s]" % q.fmt(d))
                for v, p in d:
                    c = rank.less(v, p)
                    if c and c[1] is key and isrun(c[0]) and best.root(c[0]) is c[0]:
                        for pr2, w in best.leaves(g, c[0]):
                            if w is key and pr2 is not None:
                                rep.check(best_together(g, ups, pr2, l), "execute-best", "together", "the goal and its expectation are not kept together")
            for u, y, d in l.early():
                if g.nodes[y].facts:
                    rep.bad("execute-best", "early", "the search for the best goal ends early [%s]" % q.fmt(d))
            exc = lambda d: best.has(d, lambda v, p: (lambda c: c and (c[0] is key and (isrun(c[1]) or thr(c[1])) or is_field(c[0], "desirability")))(rank.less(v, p)))
            for fs in [f for b, f in l.filtered() if b is coll]:
                for why in rank.left_out(g, fs, exc):
                    rep.bad("execute-best", "skip", "a better goal may be passed over: %s" % why)
            for u, y, ds in rank.avoid(g, l.head, ups, {l.head}, l.body):
                for d in ds:
                    if not l.exhausted(d):
                        rep.check(rank.known(g, d, exc), "execute-best", "skip", "a better goal may be passed over [%s]" % q.fmt(d))
        if l is None:
            continue
        # above the threshold
        for pr in prs:
            for d in q._fs(g, g.OUT.get(pr) or []):
                isx = lambda c: exp_of(c) is not None and exp_of(c).a[0] is E
                ok = above(g, d, isx) or all(above(g, dd, lambda c: c is key) for p2, _ in ss for dd in q._fs(g, g.OUT.get(p2) or []))
                rep.check(ok, "execute-best", "threshold", "the op of a goal may be executed though its expectation is not above the threshold [%s]" % q.fmt(d))
        # executed whenever there is one
        ch = best.chain(g, C)
        exc = lambda d: best.has(d, lambda v, p: best.is_none(v, p, lambda o: any(o is z for z in ch) or best.root(o) in ch or is_field(o, "evidence") or call(o, DEC)) or (lambda c: c and exp_of(c[0]) is not None and is_field(c[1], "cfgDescnThreshold"))(rank.less(v, p)))
        ends = {y.node.id for y in g.events("call") if y.name in (CALL, G + "limitMemory", "NarMem::limitMemory")} | rets(g)
        for u, y, ds in rank.avoid(g, l.head, set(prs), ends):
            for d in ds:
                rep.check(rank.known(g, d, exc), "execute-best", "unpicked", "the best goal may not be executed [%s]" % q.fmt(d))
        consumed(rep, g, E, C, ss, prs, l)


def is_running(g, r, key, C=None):
    """r is the greatest key so far (a start value below all of them first)"""
    if r.op == "const" or r is key:
        return False
    if any(r is z for z in (best.chain(g, C) if C is not None else [])):
        return True
    vs = [w for _, w in best.leaves(g, r)]
    return any(w is key for w in vs) and all(w is key or low(w) or is_field(w, "cfgDescnThreshold") for w in vs)


def best_together(g, ups, b, l):
    """an iteration that sets the one (at node b) sets the other (at one of ups), and vice versa"""
    if b in ups:
        return True
    return any(same_edge(g, a, b, l) and same_edge(g, b, a, l) for a in ups)


def same_edge(g, a, b, l):
    """whenever a happens in an iteration b does"""
    return a == b or not (adt.skips(g, l.head, l.body, b, {a}) and adt.skips(g, a, l.body, b, {l.head}))


def consumed(rep, g, E, C, ss, prs, l):
    """the goal executed loses its desirability and leaves the active set"""
    zero = set()
    for t, v, e in q.writes(g, "desirability"):
        if not g.nodes[e.node.id].facts:
            continue
        rep.check(v.op == "const" and float(v.a[1]) == 0.0, "execute-consume", "desirability", "%s: the desirability of the goal executed becomes %s" % (e.where, show(v)))
        zero.add(e.node.id)
    rm = [e for e in g.events("call") if e.name in ("Vec::remove", "Vec::swap_remove", "Vec::retain", "Vec::drain") and is_field(e.args[0], "set") and is_field(e.args[0].a[0], "activeSet") and g.nodes[e.node.id].facts]
    for what, nodes in (("keeps its desirability", zero), ("stays in the active set", {e.node.id for e in rm})):
        if not rep.check(bool(nodes), "execute-consume", what.split()[0], "the goal executed %s" % what):
            continue
        for pr in prs:
            after = rank.avoid(g, pr, nodes, rets(g))
            before = all(adt.skips(g, 0, None, n, {pr}) for n in nodes)
            rep.check(not (after and before), "execute-consume", what.split()[0] + "-path", "the goal executed %s [%s]" % (what, q.fmt(after[0][2][0]) if after else ""))
        for n in nodes:
            if adt.skips(g, 0, None, prs[0], {n}) and all(rank.avoid(g, n, {pr}, rets(g)) for pr in prs):
                rep.bad("execute-consume", "only", "a goal is consumed though its op may not be executed")
    ups = {p for p, _ in ss}
    for e in rm:
        if e.name in ("Vec::retain", "Vec::drain"):
            continue
        vs = best.leaves(g, e.args[1], stop=[l.index[0]] if l.index else ())
        for pr, x in vs:
            ok = x.op == "count" or l.index is not None and x is l.index[0] or x.op in ("elem", "field", "vfield") or any(y.op == "position" for y in q.subs(x))
            rep.check(ok, "execute-consume", "index", "%s: the goal removed is the one at %s" % (e.where, show(x)))
            if pr is not None and pr in l.body:
                rep.check(best_together(g, ups, pr, l), "execute-consume", "index-together", "%s: the index removed is not that of the goal executed" % e.where)


def check(rep):
    finder(rep)
    op_calls(rep)
    inject(rep)
    select(rep)
    step(rep)
