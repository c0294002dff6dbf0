"""C14: questions are answered by the best matching judgement, and everybody who asked is told."""
import adt
import c11
import c13
import loops
import q
import rank
from vg import show, kids

LEVEL = "other"
RULE = ("Answering: each handler is called only with a judgement whose expectation exceeds that of the best answer so far and with which the question's term unifies (question as the pattern), with the question's term and that judgement; "
        "then, on every path, the question's own handler if it has one, every global handler, and the best expectation becomes that of the judgement; nothing else is refused. "
        "Deriver: every conclusion is tried for every open question. Cycle: with an open question, one is selected by a valid index and tried with all beliefs of the concepts of all subterms of its term, "
        "from the procedural memory exactly if the question is a predictive implication.")
ASSUME = ["handlers do what their trait says", "which question is sampled when is left to chance"]
W = "NarWorkingCycle::"
QA, SELQ, WORKER, CYCLE, ADD = W + "qaTryAnswer", W + "task2SelByCreditRandom", c13.WORKER, c13.CYCLE, W + "memAddTask"
UNIFY, SUBST, EXP, TV, LOOK = "NarUnify::unify", "NarUnify::unifySubst", "Tv::calcExp", "NarSentence::retTv", "NarMem::ret_beliefs_of_concept"
TOSTR = ["NarSentence::convSentenceTermPunctToStr", "Term::convTermToStr"]
is_field = c13.is_field


def try_answer(rep):
    g = rep.graph(QA, atoms=[UNIFY, SUBST, EXP, TV] + TOSTR)
    qt = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "Task2" in g.root.fn.locals[i]["t"]][0]
    c = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "NarSentence::Sentence" in g.root.fn.locals[i]["t"]][0]
    hs = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "QHandler" in g.root.fn.locals[i]["t"] and "Task2" not in g.root.fn.locals[i]["t"]][0]
    best, term = g.field(qt, "bestAnswerExp"), g.field(g.field(qt, "sentence"), "term")
    isexp = lambda v: v.op == "call" and v.a[0] == EXP and any(x.op == "call" and x.a[0] == TV and x.a[1] is c for x in q.subs(v))
    isun = lambda v: v.op == "call" and v.a[0] == UNIFY and v.a[1] is term and v.a[2] is g.field(c, "term")

    def better(d):
        for v, p in d:
            x = rank.less(v, p)
            if x and x[0] is best and isexp(x[1]) and x[2]:
                return True
        return False

    def notbetter(d):
        return any(x and isexp(x[0]) and x[1] is best and not x[2] for x in (rank.less(v, p) for v, p in d))
    unified = lambda d: any(v.op == "isv" and isun(v.a[0]) and (v.a[1] == "Some") == p for v, p in d)
    differs = lambda d: any(v.op == "isv" and isun(v.a[0]) and (v.a[1] == "Some") != p for v, p in d)
    nojudg = lambda d: c11.punct_not(g, c, d)
    judg = lambda d: any(v.op == "isv" and v.a[0] is g.field(c, "punct") and v.a[1] == "JUGEMENT" and p for v, p in d)
    ans = [e for e in g.events("call") if e.name and e.name.endswith("QHandler::answer")]
    wr = [e for t, v, e in q.writes(g, "bestAnswerExp")]
    own = [e for e in ans if any(is_field(x, "handler") for x in q.subs(e.args[0]))]
    glob = [e for e in ans if any(x is hs for x in q.subs(e.args[0])) and e not in own]
    if not rep.check(bool(own), "answer-own-handler", "call", "the handler of the question is never told") | rep.check(bool(glob), "answer-global-handlers", "call", "the global handlers are never told") | \
            rep.check(bool(wr), "answer-best", "write", "the expectation of the best answer is never updated"):
        return
    for e in ans:
        rep.check(e.args[1] is term, "answer-args", "question", "%s: the question told is %s" % (e.where, show(e.args[1])))
        rep.check(e.args[2] is c, "answer-args", "answer", "%s: the answer told is %s" % (e.where, show(e.args[2])))
    wrs = {e.node.id for e in wr}
    for e in ans + wr:
        # (what holds before the best expectation is updated)
        for d in g.facts_at(e.node) if e in wr else [d for u, x, ds in rank.avoid(g, 0, wrs, {e.node.id}) if x == e.node.id for d in ds]:
            rep.check(rank.known(g, d, better), "answer-better", "guard", "%s: an answer is reported that is not known to be better than the best so far [%s]" % (e.where, q.fmt(d)))
            rep.check(rank.known(g, d, unified), "answer-matches", "guard", "%s: an answer is reported without the question's term having been unified with it [%s]" % (e.where, q.fmt(d)))
            rep.check(rank.known(g, d, judg), "answer-judgement", "guard", "%s: an answer is reported that is not known to be a judgement [%s]" % (e.where, q.fmt(d)))
    for t, v, e in q.writes(g, "bestAnswerExp"):
        rep.check(isexp(v), "answer-best", "value", "%s: the best answer's expectation is set to %s" % (e.where, show(v)))
    rets = {r.id for r in g.root.retnodes}
    ok = lambda d: notbetter(d) or differs(d) or nojudg(d)
    for nm, es, extra in (("answer-own-handler", own, lambda d: any(v.op == "isv" and is_field(v.a[0], "handler") and (v.a[1] == "Some") != p for v, p in d)), ("answer-best", wr, lambda d: False)):
        for u, x, ds in rank.avoid(g, 0, {e.node.id for e in es}, rets):
            for d in ds:
                rep.check(rank.known(g, d, lambda z: ok(z) or extra(z)), nm, "whenever", "%s: a better matching answer may go without this [%s]" % (es[0].where, q.fmt(d)))
    r = rank.each(g, glob, lambda x: x is hs)
    if rep.check(bool(r), "answer-global-handlers", "all", "%s: not all global handlers are told" % glob[0].where):
        for nd, rs in r:
            rep.check(not rs, "answer-global-handlers", "each", "%s: %s" % (glob[0].where, rs[:1]))
            for u, x, ds in rank.avoid(g, 0, {nd}, rets):
                for d in ds:
                    rep.check(rank.known(g, d, ok), "answer-global-handlers", "whenever", "%s: the global handlers may not be told of a better matching answer [%s]" % (glob[0].where, q.fmt(d)))


def deriver(rep):
    g = rep.graph(WORKER, atoms=[c13.INF, c13.INF2, c13.SINGLE, ADD, QA, TV] + c13.NEST, spawn_inline=True)
    qa = [e for e in g.events("call") if e.name == QA]
    adds = [e for e in g.events("call") if e.name == ADD]
    if not rep.check(bool(qa), "conclusions-tried", "call", "conclusions are not tried as answers") or not adds:
        return
    lists = {}
    for e in qa:
        rep.check(any(is_field(x, "questionTasks") and loops.element_of(e.args[0]) is x for x in q.subs(e.args[0])), "conclusions-tried", "question", "%s: tried for %s" % (e.where, show(e.args[0])))
        rep.check(any(is_field(x, "^globalQaHandlers") or "globalQaHandlers" in str(x.a[-1]) for x in q.subs(e.args[2]) if x.op == "field"), "conclusions-tried", "handlers", "%s: the handlers told are %s" % (e.where, show(e.args[2])))
        b = e.args[1].a[0] if e.args[1].op == "field" else e.args[1]
        el = loops.element_of(b)
        if rep.check(el is not None, "conclusions-tried", "what", "%s: tried is %s" % (e.where, show(e.args[1]))):
            lists.setdefault(rank.strip(el)[0], []).append(e)
    added = set()
    for e in adds:
        b = e.args[1].a[0] if e.args[1].op == "field" else e.args[1]
        el = loops.element_of(b)
        if el is not None:
            added.add(rank.strip(el)[0])
    for C in added:
        rep.check(C in lists, "conclusions-tried", "list", "%s: the conclusions that are added are not those that are tried as answers" % adds[0].where)
    for C, es in lists.items():
        el = es[0].args[1]
        isq = lambda x: is_field(x, "questionTasks")
        nojudg = lambda d: c11.punct_not(g, el, d)
        isc = lambda x: x is C
        rep.check(bool(rank.each(g, es, isq)), "conclusions-tried", "questions", "%s: not all open questions are tried" % es[0].where)
        if not rep.check(bool(rank.each(g, es, isc)), "conclusions-tried", "all", "%s: not all conclusions are tried as answers" % es[0].where):
            continue
        r = rank.every(g, es, [isq, isc], nojudg)
        if rep.check(bool(r), "conclusions-tried", "combinations", "%s: not every conclusion is tried for every question" % es[0].where):
            for nd, rs in r:
                rep.check(not rs, "conclusions-tried", "each", "%s: %s" % (es[0].where, rs[:1]))


def cycle(rep):
    g = rep.graph(CYCLE, atoms=[c13.TOP, c13.CREDIT, c13.SUBS, c13.USUBS, c13.CX, QA] + c13.NEST)
    qa = [e for e in g.events("call") if e.name == QA]
    if not rep.check(bool(qa), "beliefs-tried", "call", "beliefs are not tried as answers"):
        return
    for e in qa:
        qt = e.args[0]
        if not rep.check(qt.op == "idx" and is_field(qt.a[0], "questionTasks"), "beliefs-tried", "question", "%s: beliefs are tried for %s" % (e.where, show(qt))):
            continue
        term = g.field(g.field(qt, "sentence"), "term")
        rep.check(any(is_field(x, "globalQaHandlers") for x in q.subs(e.args[2])), "beliefs-tried", "handlers", "%s: the handlers told are %s" % (e.where, show(e.args[2])))
        el = loops.element_of(e.args[1])
        look = [x for x in q.subs(e.args[1]) if x.op == "call" and x.a[0] == LOOK]
        if not rep.check(bool(look), "beliefs-tried", "what", "%s: tried is %s, not a belief of a concept" % (e.where, show(e.args[1]))):
            continue
        subs = lambda x: x.op == "call" and x.a[0] in (c13.SUBS, c13.USUBS) and x.a[1] is term
        key = look[0].a[2]
        rep.check(loops.element_of(key) is not None and subs(loops.element_of(key)), "beliefs-tried", "concept", "%s: the concept is that of %s, not of a subterm of the question" % (e.where, show(key)))
        r = rank.each(g, [e], lambda x: any(y is look[0] for y in q.subs(x)))
        if not rep.check(bool(r), "beliefs-tried", "beliefs", "%s: not all beliefs of the concept are tried" % e.where):
            continue
        for nd, rs in r:
            rep.check(not rs, "beliefs-tried", "each belief", "%s: %s" % (e.where, rs[:1]))
        out = [l for l in loops.loops(g) if any(subs(x) for x in l.sources()) and e.node.id in l.body]
        if not rep.check(bool(out), "beliefs-tried", "subterms", "%s: not all subterms of the question are looked up" % e.where):
            continue
        L = out[0]
        none = lambda d: any(v.op == "isv" and any(y is look[0] for y in q.subs(v.a[0])) and (v.a[1] == "Some") != p for v, p in d)
        for u, x, d in L.early():
            rep.check(not g.nodes[x].facts, "beliefs-tried", "stop", "%s: not all subterms are looked up [%s]" % (e.where, q.fmt(d)))
        for u, x, ds in rank.avoid(g, L.head, {nd for nd, rs in r}, {L.head}, L.body):
            for d in ds:
                rep.check(L.exhausted(d) or rank.known(g, d, none), "beliefs-tried", "each", "%s: a subterm of the question may be left out [%s]" % (e.where, q.fmt(d)))
        # whenever there is an open question
        empty = lambda d: any((lambda c: c and loops.len_of(c[0]) is not None and is_field(loops.len_of(c[0]), "questionTasks") and (loops.ival(c[1]) == 0 or loops.ival(c[1]) == 1 and c[2]))(rank.less(v, p)) or
                              v.op == "bin" and v.a[0] == "Eq" and p and any(loops.len_of(k) is not None and is_field(loops.len_of(k), "questionTasks") for k in kids(v)) and any(loops.ival(k) == 0 for k in kids(v)) or
                              v.op == "call" and v.a[0].endswith("::is_empty") and p and is_field(v.a[1], "questionTasks") for v, p in d)
        for u, x, ds in rank.avoid(g, 0, {L.head}, {z.id for z in g.root.retnodes}):
            for d in ds:
                rep.check(rank.known(g, d, empty), "beliefs-tried", "whenever", "%s: an open question may be left alone [%s]" % (e.where, q.fmt(d)))
        memory(rep, g, e, look[0].a[1], term, L)
        rep.check(qt.a[1].op == "call" and qt.a[1].a[0] == SELQ, "question-sampled", "index", "%s: the question is number %s" % (e.where, show(qt.a[1])))


def memory(rep, g, e, mem, term, L):
    cop = lambda v: v.op == "vfield" and v.a[0] is term and v.a[1] == "Stmt" and v.a[2] == "0"

    def temporal(d):
        for v, p in d:
            if v.op == "isv" and v.a[1] == "PREDIMPL" and cop(v.a[0]) or v.op == "bin" and v.a[0] == "Eq" and any(cop(k) for k in kids(v)) and any(k.op == "agg" and k.a[1] == "PREDIMPL" for k in kids(v)):
                return p
            if v.op == "isv" and v.a[0] is term and v.a[1] == "Stmt" and not p:
                return False
        return None
    seen = set()
    cases = [(mem, d) for d in g.facts_at(e.node)] if mem.op != "phi" else [(w, d) for pr, w in rank.settings(g, mem) for d in q._fs(g, g.OUT.get(pr) or [])]
    for m, d in cases:
        nm = m.a[-1] if m.op == "field" else None
        if not rep.check(nm in ("mem", "procMem"), "right-memory", "memory", "%s: beliefs are taken from %s" % (e.where, show(m))):
            continue
        want = nm == "procMem"
        ok = rank.known(g, d, lambda z: temporal(z) is want)
        rep.check(ok, "right-memory", nm, "%s: beliefs are taken from %s [%s]" % (e.where, nm, q.fmt(d)))
        seen.add(nm)
    rep.check(seen == {"mem", "procMem"}, "right-memory", "both", "%s: beliefs are only ever taken from %s" % (e.where, sorted(map(str, seen))))


def sampled(rep):
    """the index is valid: a counter in a complete loop over the list, or the last one"""
    g = rep.graph(SELQ)
    arr = adt.param(g, 2)

    def same(x):  # the list itself or a list with one entry for each of its elements
        while x is not None and x.op == "mapped" and len(x.a) > 3 and x.a[3] == "Iterator::map":
            x = x.a[0]
        return x is arr
    ls = [l for l in loops.loops(g) if any(same(x) for x in l.sources())]
    n = 0
    for e in g.events("return"):
        idxs = [l.index[0] for l in ls if l.index]
        vs = [(e.node.id, e.val)] if e.val.op != "phi" or e.val in idxs else rank.settings(g, e.val, idxs)
        ok_at = lambda v: v.op == "bin" and v.a[0] == "Sub" and same(loops.len_of(v.a[1])) and (loops.ival(v.a[2]) or 0) >= 1
        for pr, v in vs:
            n += 1
            cnt = any(l.index and v is l.index[0] and pr in l.body | {s for u in l.body for s, _ in g.nodes[u].succ} and inloop(g, l, pr) for l in ls) or v.op == "count" or v.op in ("position",) or v.op == "vfield" and v.a[0].op == "position"
            if v.op == "field" and v.a[0].op == "elem":
                cnt = True
            if v.op == "elem" and v.a[0].op == "agg" and str(v.a[0].a[0]).endswith("::Range"):
                fs = dict(zip(v.a[0].a[2], v.a[0].a[3:]))
                cnt = loops.ival(fs["start"]) is not None and same(loops.len_of(fs["end"]))
            rep.check(cnt or ok_at(v) or v.op == "call" and v.a[0].endswith("min"), "question-sampled", "valid", "the number of the sampled question is %s, which need not be one of an open question" % show(v))
    rep.floor("question-sampled", n, 1, "results of the sampling")


def inloop(g, l, pr):
    """reached only from inside an iteration (an element was seen)"""
    return all(any(v.op == "isv" and v.a[1] == "Some" and p and any(v.a[0] is x.val for x in l.nexts) or
                   l.index and v.op == "bin" and v.a[0] == "Lt" and v.a[1] is l.index[0] and p for v, p in d) for d in q._fs(g, g.OUT.get(pr) or []))


def check(rep):
    try_answer(rep)
    deriver(rep)
    cycle(rep)
    sampled(rep)
