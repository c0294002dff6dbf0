"""Every conclusion drawn from two premises (and every revision) combines disjoint evidence only, and
carries the evidence of both."""
import q
import rank
import loops
import stamps
from vg import V, show, kids

LEVEL = "other"
RULE = ("For every site that combines two evidence bases: on every path reaching it the overlap test of exactly those two bases is known to be negative, or the "
        "function flushes everything it returns when the test is positive; every sentence constructed from combined evidence carries the combination of exactly "
        "the two premises' bases; every caller hands over term, punctuation, evidence base and truth value of one and the same sentence per premise; the overlap "
        "test itself compares all ids of both bases.")
ASSUME = ["values read twice from the same place without an intervening visible write are equal (no concurrent writer of a sentence under its lock)",
          "std container and iterator semantics"]
M, O = stamps.MERGE, stamps.OVERLAP
RETTV = "NarSentence::retTv"
ATOMS = [M, O, RETTV, "Term::checkEqTerm", "NarWorkingCycle::infBinary", "NarWorkingCycle::inference2", "NarWorkingCycle::inference", "Tv::rev",
         "NarWorkingCycle::memAddTask", "NarWorkingCycle::qaTryAnswer", "NarWorkingCycle::infSinglePremise2", "NarMem::storeInConcepts",
         "NarProc::mem_add_evidence", "NarMem::ret_beliefs_by_terms_nonunique", "Term::retSubterms", "Term::calcComplexity", "NarSentence::shallowCopySentence",
         "Tv::dedGoal", "NarWorkingCycle::infSinglePremise", "NarWorkingCycle::select_top_k_tasks", "NarUnify::unify", "NarProc::retPred", "NarProc::retSeqCond"]


ANCHORS = ["NarWorkingCycle::inference2", "NarWorkingCycle::memReviseBelief", "NarInfProcedural::infGoalBelief", "NarProc::narInit"]


def ovl(d, x, y):
    for v, p in d:
        if v.op == "call" and v.a[0] == O:
            k = kids(v)
            if k[0] is x and k[1] is y or k[0] is y and k[1] is x:
                return p
    return None


def site(g, e):
    x, y = e.args[0], e.args[1]
    ds = [d for d in g.facts_at(e.node) if not (q.empties(g, d) & q.iterating(g, e, d))]
    pol = [ovl(d, x, y) for d in ds]
    pol = [False if p is None and rank.known(g, d, lambda z: ovl(z, x, y) is False) else p for p, d in zip(pol, ds)]
    if all(p is False for p in pol):
        return None
    if any(p is True for p in pol):
        return "evidence bases %s and %s are combined where they are known to overlap" % (show(x), show(y))
    # everything derived here is dropped before returning if the bases overlap
    msg = "evidence bases %s and %s are combined although they may overlap (no negative overlap test on some path)" % (show(x), show(y))
    rets = list(g.events("return"))
    if not rets or escapes(g, e.val):
        return msg
    n = 0
    carried = False
    for r in rets:
        if r.inst is not g.root:
            continue
        for v, d in q.alts(g, r.node, r.val):
            n += 1
            p = ovl(d, x, y)
            if p is False:
                items = q.contents(g, v)
                carried = carried or e.val in q.subs(v) or any(e.val in q.subs(i) for _, i, _ in items)
                continue
            if v.id in q.empties(g, d):
                continue
            items = q.contents(g, v)
            if not any(e.val in q.subs(i) for _, i, _ in items) and e.val not in q.subs(v):
                continue
            if p is True and any(c.name in ("Vec::clear",) and c.args[0] is v and all(ovl(dd, x, y) is True for dd in g.facts_at(c.node))
                                 for c in g.events("call")):
                continue
            return msg
    return None if n and carried else msg


def escapes(g, val):
    """val is stored somewhere that outlives the analysed function, otherwise than by being returned"""
    def has(x):
        return any(val in q.subs(w) for w in g.expand(x))
    for e in g.events():
        if e.kind == "write" and has(e.val):
            return True
        if e.kind == "call" and e.name in (q.PUSH | q.EXTEND | {"Vec::insert", "HashMap::insert", "Sender::send", "SyncSender::send"}) and len(e.args) > 1:
            if any(has(a) for a in e.args[1:]) and not any(w.op == "new" for w in g.leaves(e.args[0])):
                return True
    return False


def sentence_fields(v):
    return dict(zip(v.a[2], v.a[3:]))


def combined_sentences(rep):
    """sentences built in the functions that combine evidence carry the combination"""
    n = 0
    covered = set()
    roots = list(ANCHORS) + q.direct_sites(rep.c, [M])
    for fn in roots:
        if fn in covered:
            continue
        g = rep.graph(fn, atoms=sorted(set(ATOMS) - {fn}), spawn_inline=True)
        covered |= {i.fn.path for i in g.insts}
        merges = [e for e in g.events("call", M)]
        if fn in ANCHORS:
            rep.check(bool(merges), "combines-evidence", fn, "%s draws conclusions from two premises but never combines their evidence bases" % fn)
        mv = {e.val.id for e in merges}
        for e in g.events("agg"):
            if e.val.op == "agg" and e.val.a[0] == "NarSentence::Sentence" and len(e.val.a) > 5:
                f = sentence_fields(e.val)
                evi = g.expand(f["evi"])
                comb = any(x.op == "call" and (str(x.a[0]).startswith("Tv::") and len(kids(x)) >= 2 or x.a[0] == "NarWorkingCycle::infBinary") for w in evi for x in q.subs(w))
                if not comb:
                    continue
                n += 1
                st = f["stamp"]
                rep.check(st.id in mv, "conclusion-evidence", "%s:sentence" % e.inst.fn.path,
                          "%s: a conclusion with combined truth value carries the evidence base %s instead of the combination of both premises' bases" % (e.where, show(st)))
                if st.id not in mv:
                    continue
                # the two combined bases belong to the sentences the truth value was computed from
                xs = kids(st)
                prem = [x for w in evi for x in q.subs(w) if x.op == "call" and x.a[0] in (RETTV, "NarSentence::retDesire")]
                own = {s.a[0].id for s in xs if s.op == "field" and s.a[1] == "stamp"}
                if prem and own:
                    who = {kids(p)[0].id for p in prem}
                    rep.check(who == own, "evidence-of-premises", "%s:sentence" % e.inst.fn.path,
                              "%s: truth value computed from %s but evidence combined from %s" % (e.where, [show(p) for p in prem], [show(x) for x in xs]))
                rep.check(len({x.id for x in xs}) == 2, "two-bases", "%s" % e.inst.fn.path, "%s: a base is combined with itself" % e.where)
        # in-place updates of evidence counts
        for t, val, e in q.writes(g, "evi"):
            if any(x.op == "agg" and x.a[1] == "CNT" and x.a[3].op == "bin" for w in g.expand(val) for x in q.subs(w)):
                own = t.a[0]
                n += 1
                wr = [(w, we) for wt, w, we in q.writes(g, "stamp") if wt is g.field(own, "stamp")]
                rep.check(any(w.id in mv for w, _ in wr), "conclusion-evidence", "%s:update" % e.inst.fn.path,
                          "%s: evidence of %s is increased without its evidence base being extended" % (e.where, show(own)))
                for w, we in wr:
                    rep.check(w.id in mv and g.field(own, "stamp") in kids(w), "evidence-of-premises", "%s:update" % e.inst.fn.path,
                              "%s: evidence base replaced by %s" % (we.where, show(w)))
    return n


def pairing(rep):
    """callers of the two-premise rules pass one sentence's own parts per premise"""
    n = [0]

    def part(g, v, name):
        # owner of the component v
        if v.op == "field" and v.a[1] == name:
            return v.a[0]
        return None

    def pred(g, e):
        n[0] += 1
        a = e.args
        for k in (0, 4):
            t, p, s, tv = a[k:k + 4]
            os_ = [part(g, t, "term"), part(g, p, "punct"), part(g, s, "stamp")]
            tvs = [kids(x)[0] for x in q.subs(tv) if x.op == "call" and x.a[0] == RETTV]
            if tvs:
                os_.append(tvs[0])
            if any(o is None for o in os_[:3]) or len({o.id for o in os_}) != 1:
                return "premise %d of a two-premise inference is put together from different sentences: term %s, punctuation %s, evidence base %s, truth value %s" % (
                    1 if k == 0 else 2, show(t), show(p), show(s), show(tv))
        if a[2] is a[6]:
            return "both premises of a two-premise inference have the evidence base %s" % show(a[2])
        return None
    q.prove_sites(rep, "premise-parts", ["NarWorkingCycle::inference2"], ATOMS, pred, climb=2)
    rep.floor("premise-parts", n[0], 1, "calls of the two-premise rules")


def check(rep):
    stamps.overlap(rep)
    n = q.prove_sites(rep, "disjoint-evidence", [M], ATOMS, site)
    rep.floor("disjoint-evidence", n, 4, "sites combining evidence bases")
    k = combined_sentences(rep)
    rep.floor("conclusion-evidence", k, 4, "sentences with combined evidence")
    pairing(rep)
    # nobody builds a stamp around the combination
    for f in rep.c.fns.values():
        if f.path.startswith(("NarStamp::", "<NarStamp::")):
            continue
        for b in f.blocks:
            for s in b["s"]:
                if s["k"] == "=" and s["rv"].get("k") == "agg" and s["rv"].get("adt") == "NarStamp::Stamp":
                    rep.bad("stamp-construction", f.path, "%s:%s: %s puts an evidence base together by hand" % (f.file, s.get("line"), f.path))
