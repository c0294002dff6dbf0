"""C13: one step of declarative reasoning: best task, all its partners, all conclusions."""
import adt
import loops
import q
import rank
from vg import show, kids

LEVEL = "other"
RULE = ("Selection: the index returned is that of the maximum of the credit over all tasks (complete loop, replaced only by a greater one, index and value together). "
        "Cycle: with a task in the list, on every path the task at that index is taken out of the list and sent to the deriver as primary premise; partners are, for all subterms of its term, the tasks of the lookup table "
        "(the first 51 per subterm), left out only if one with the same id was collected before; of more than 300 those with least complexity stay. "
        "Deriver: single-premise inference of the primary, two-premise inference of the primary with all partners and with all beliefs of both tables of the concept of its term; all results reach the list of conclusions; "
        "every conclusion is added as a task, with the attention of its parent times the bias of the rule.")
ASSUME = ["std sort and channel semantics", "the thread that derives terminates (its panic is a panic of the deriver)"]
W = "NarWorkingCycle::"
TOP, CREDIT, CYCLE, WORKER = W + "taskSelByCreditTop", W + "taskCalcCredit", W + "reasonCycle", W + "createMem2::{closure#0}"
INF, INF2, SINGLE, ADD, QA = W + "inference", W + "inference2", W + "infSinglePremise2", W + "memAddTask", W + "qaTryAnswer"
SUBS, USUBS, CX, TV = "Term::retSubterms", "Term::retUniqueSubterms", "Term::calcComplexity", "NarSentence::retTv"
NEST = ["Term::checkEqTerm", "NarMem::limitMemory", W + "populateTaskByTermLookup", W + "task2SelByCreditRandom", W + "taskSelByCreditRandom", "NarSentence::usageUpdate", "NarMem::ret_beliefs_of_concept"]


def is_field(v, name):
    return v.op == "field" and v.a[-1] == name


def low(x):
    """a start value below all credits"""
    if x.op == "un" and x.a[0] == "Neg":
        return True
    if x.op != "const":
        return False
    try:
        return float(x.a[1]) <= 0.0
    except (TypeError, ValueError):
        return "INFINITY" in str(x.a[1]) and "NEG" in str(x.a[1]) or "MIN" in str(x.a[1])


# ---------------------------------------------------------------- selection
def argmax(rep):
    g = rep.graph(TOP, atoms=[CREDIT])
    arr = adt.param(g, 1)
    time = adt.param(g, 2)
    credit = lambda v: v.op == "call" and v.a[0] == CREDIT and loops.element_of(v.a[1]) is arr and v.a[2] is time
    ret = [e.val for e in g.events("return")]
    rep.floor("select-best", len(ret), 1, "returns")
    # iterator form
    for v in ret:
        it = [x for x in q.subs(v) if x.op == "call" and x.a[0] in ("Iterator::max_by", "Iterator::max_by_key", "Iterator::min_by")]
        if it:
            x = it[0]
            base, lim = rank.strip(x.a[1])
            rep.check(base is arr and not lim, "select-best", "all", "the best is looked for in %s only" % show(x.a[1]))
            rep.check(any(y.op == "call" and y.a[0] == CREDIT for y in q.subs(x)), "select-best", "key", "selected is not by credit: %s" % show(x))
            rep.check(x.a[0] != "Iterator::min_by", "select-best", "direction", "the least credit is selected")
            return
    ls = [l for l in loops.loops(g) if any(x is arr for x in l.sources())]
    if not rep.check(bool(ls), "select-best", "all", "the loop does not run over all tasks"):
        return
    l = ls[0]
    for u, x, d in l.early():
        if g.nodes[x].facts:
            rep.bad("select-best", "early", "the search for the best task ends early [%s]" % q.fmt(d))
    # the running best: a phi at the loop head holding the index, updated under credit(elem) > running value
    idx = []
    for v in ret:
        idx += [(pr, w) for pr, w in rank.settings(g, v) if loops.ival(w) is None]
    if not rep.check(bool(idx), "select-best", "index", "the index returned never depends on a task"):
        return
    for pr, w in idx:
        counter = w.op == "count" or l.index and w is l.index[0] or w.op == "field" and w.a[0].op in ("elem", "vfield") or w.op == "elem" or w.op == "vfield"
        rep.check(bool(counter), "select-best", "index", "the index of the best task is set to %s" % show(w))
        for d in q._fs(g, g.OUT.get(pr) or []):
            gt = [c for c in (rank.less(v, po) for v, po in d) if c and credit(c[1])]
            lt = [c for c in (rank.less(v, po) for v, po in d) if c and credit(c[0])]
            if not rep.check(bool(gt) and not (lt and not gt), "select-best", "greater", "a task becomes the best one without having more credit than the best so far [%s]" % q.fmt(d)):
                continue
            run = gt[0][0]
            vals = [x for _, x in rank.settings(g, run)]
            good = all(credit(x) or low(x) for x in vals)
            rep.check(bool(vals) and any(credit(x) for x in vals) and good, "select-best", "running", "the best credit so far is %s" % [show(x) for x in vals][:4])
    # every greater one is taken
    upd = set()
    for pr, w in idx:
        upd.add(pr)
    for u, x, ds in rank.avoid(g, l.head, upd, {l.head}, l.body):
        for d in ds:
            if l.exhausted(d):
                continue
            ok = any(c and credit(c[0]) for c in (rank.less(v, po) for v, po in d))
            rep.check(ok, "select-best", "skip", "a task with more credit may be passed over [%s]" % q.fmt(d))


# ---------------------------------------------------------------- the cycle
def cycle(rep):
    g = rep.graph(CYCLE, atoms=[TOP, CREDIT, SUBS, USUBS, CX, QA] + NEST)
    sends = [e for e in g.events("call") if e.name and e.name.endswith("Sender::send") and e.args[1] is not None]
    if not rep.check(bool(sends), "cycle-derives", "send", "nothing is sent to the deriver"):
        return
    msgs = []
    for e in sends:
        for v in g.expand(e.args[1]):
            msgs += [(e, x) for x in g_alts(g, v) if x.op == "agg" and str(x.a[0]).endswith("DeriverWorkMessage")]
    if not rep.check(bool(msgs), "cycle-derives", "message", "%s: what is sent is %s" % (sends[0].where, show(sends[0].args[1]))):
        return
    tops = [e for e in g.events("call") if e.name == TOP and is_field(e.args[0], "judgementTasks")]
    if not rep.check(bool(tops), "cycle-selects-best", "call", "the primary premise is not selected by credit from the task list"):
        return
    T = tops[0]
    rep.check(T.args[1] is not None and any(is_field(x, "cycleCounter") for x in q.subs(T.args[1])), "cycle-selects-best", "time", "%s: the credit is computed for the time %s" % (T.where, show(T.args[1])))
    rem = [e for e in g.events("call") if e.name in ("Vec::swap_remove", "Vec::remove") and is_field(e.args[0], "judgementTasks")]
    for e in rem:
        rep.check(e.args[1] is T.val, "cycle-takes-out", "index", "%s: the task taken out is the one at %s" % (e.where, show(e.args[1])))
    rep.check(bool(rem), "cycle-takes-out", "call", "the selected task stays in the list")
    for u, x, ds in rank.avoid(g, T.node.id, {e.node.id for e in rem}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.bad("cycle-takes-out", "path", "the selected task may stay in the list [%s]" % q.fmt(d))
    sel = lambda v: v.op == "idx" and is_field(v.a[0], "judgementTasks") and v.a[1] is T.val or v.op == "call" and v.a[0] in ("Vec::swap_remove", "Vec::remove") and is_field(v.a[1], "judgementTasks") and v.a[2] is T.val
    prims = set()
    n = 0
    for e, m in msgs:
        f = dict(zip(m.a[2], m.a[3:]))
        ps = g_alts(g, f["primary"])
        if not ps:
            continue  # the payload of None: not a possible alternative
        n += 1
        prims |= {f["primary"]} | set(ps)
        rep.check(bool(ps) and all(sel(x) for x in ps), "cycle-selects-best", "primary", "%s: the primary premise is %s, not the selected task" % (e.where, [show(x) for x in ps][:3]))
        partners(rep, g, e, f["secondary"], prims)
    rep.floor("cycle-selects-best", n, 1, "messages to the deriver")
    # every cycle with a task derives
    for u, x, ds in rank.avoid(g, T.node.id, {e.node.id for e in sends}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.bad("cycle-derives", "path", "the selected task may not be processed [%s]" % q.fmt(d))
    nonempty = lambda d: any((lambda c: c and (loops.len_of(c[0]) is not None and is_field(loops.len_of(c[0]), "judgementTasks") and loops.ival(c[1]) in (0, 1) and not (loops.ival(c[1]) == 1 and not c[2])))(rank.less(v, p)) or
                             v.op == "bin" and v.a[0] == "Eq" and p and any(loops.len_of(k) is not None and is_field(loops.len_of(k), "judgementTasks") for k in kids(v)) and any(loops.ival(k) == 0 for k in kids(v)) or
                             v.op == "call" and v.a[0].endswith("::is_empty") and p and is_field(v.a[1], "judgementTasks") for v, p in d)
    for u, x, ds in rank.avoid(g, 0, {T.node.id}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.check(rank.known(g, d, nonempty), "cycle-derives", "whenever", "a cycle may select no task though there are some [%s]" % q.fmt(d))


def g_alts(g, v, seen=None):
    """leaves of v through joins and Option wrapping"""
    seen = seen if seen is not None else set()
    if v.id in seen:
        return []
    seen.add(v.id)
    if v.op == "phi":
        return [y for p in [v] for _, w in g.phis.get(p.id, []) for y in g_alts(g, w, seen)]
    if v.op == "vfield" and v.a[1] == "Some":
        out = []
        for y in g_alts(g, v.a[0], seen):
            if y.op == "agg" and y.a[1] == "Some":
                out += g_alts(g, y.a[3], seen)
            elif y.op == "agg" and y.a[1] == "None":
                continue
            else:
                out.append(g.vfield(y, "Some", "0"))
        return out
    return [v]


def partners(rep, g, e, sec, prims):
    base = sec
    lims = []
    for _ in range(6):
        b, lim = rank.strip(base)
        lims += lim
        if b is base:
            break
        base = b
    term = [p for p in prims]
    isterm = lambda t: any(is_field(t, "term") and is_field(t.a[0], "sentence") and (t.a[0].a[0] is p or set(g_alts(g, t.a[0].a[0])) & prims) for p in term)
    subs = lambda x: x.op == "call" and x.a[0] in (SUBS, USUBS) and isterm(x.a[1])
    # limits: the first 300 after sorting by complexity
    for k, n in lims:
        rep.check(k == "prefix" and loops.ival(n) == 300, "partners-limit", "kept", "%s: the partners are cut to %s %s" % (e.where, k, show(n) if hasattr(n, "op") else n))
    if lims:
        ss = [s for s in rank.sorts(g) if rank.strip(s.coll)[0] is base or s.coll is base]
        if rep.check(bool(ss), "partners-limit", "order", "%s: the partners are cut without having been ordered by complexity" % e.where):
            for s in ss:
                rep.check(s.dir == "asc", "partners-limit", "direction", "%s: the most complex partners are kept" % s.e.where)
    pushes = [x for x in g.events("call") if x.name in q.PUSH and x.args[0] is base]
    if not rep.check(bool(pushes), "partners-all", "push", "%s: no partner is collected into %s" % (e.where, show(base))):
        return
    entry = lambda v: any(is_field(x, "judgementTasksByTerm") for x in q.subs(v)) and any(adt.is_elem(y, x) for y in q.subs(v) for x in [loops.element_of(y)] if x is not None and subs(x))
    same = lambda d: any(v.op == "bin" and v.a[0] == "Eq" and p and all(is_field(k, "id") for k in kids(v)) and any(loops.element_of(k.a[0]) is base for k in kids(v)) or
                         v.op == "call" and v.a[0] == "Arc::ptr_eq" and p and any(loops.element_of(k) is base for k in kids(v)) for v, p in d)

    def count(d):
        """51 have been looked at"""
        for v, p in d:
            c = rank.less(v, p)
            if c and loops.ival(c[0]) is not None and c[1].op == "phi" and loops.ival(c[0]) + (1 if c[2] else 0) == 51:
                return True
        return False
    n = 0
    for x in pushes:
        n += 1
        rep.check(entry(x.args[1]), "partners-all", "what", "%s: collected is %s, not a task of the lookup table" % (x.where, show(x.args[1])))
    r = rank.each(g, pushes, lambda c: entry(c) or entry(rank.strip(c)[0]), excuse=same, early=count, cut=lambda k, x: k == "prefix" and loops.ival(x) == 51)
    if rep.check(bool(r), "partners-all", "entry", "%s: not all tasks of an entry of the lookup table are looked at" % e.where):
        for nd, rs in r:
            rep.check(not rs, "partners-all", "tasks", "%s: a partner may be left out: %s" % (pushes[0].where, rs[:1]))
    r2 = [l for l in loops.loops(g) if any(subs(c) for c in l.sources()) and any(x.node.id in l.body for x in pushes)]
    if rep.check(bool(r2), "partners-all", "subterms", "%s: partners are not collected for all subterms of the primary's term" % e.where):
        L = r2[0]
        inner = {nd for nd, rs in r if nd in L.body} or {x.node.id for x in pushes}
        for u, y, d in L.early():
            rep.check(not g.nodes[y].facts, "partners-all", "stop", "%s: the collection stops before the last subterm [%s]" % (e.where, q.fmt(d)))
        absent = lambda d: any(v.op == "call" and v.a[0] == "HashMap::contains_key" and not p or v.op == "isv" and v.a[1] == "Some" and not p and v.a[0].op == "call" and v.a[0].a[0] == "HashMap::get" for v, p in d)
        for u, y, ds in rank.avoid(g, L.head, inner, {L.head}, L.body):
            for d in ds:
                rep.check(L.exhausted(d) or rank.known(g, d, absent), "partners-all", "every", "%s: a subterm may be left out [%s]" % (e.where, q.fmt(d)))
    # unique
    ok = any(any(x is base for x in l.sources()) for l in loops.loops(g)) or any(loops.whole(v.a[0]) is base for v in rank.scan_values(g))
    rep.check(ok, "partners-unique", "scan", "%s: a task may be collected twice" % e.where)
    for x in pushes:
        for d in g.facts_at(x.node):
            rep.check(not rank.known(g, d, same), "partners-unique", "push", "%s: a task is collected though it was collected before [%s]" % (x.where, q.fmt(d)))


# ---------------------------------------------------------------- the deriver
def pair(g, e):
    """(sentence, sentence) an inference event is about, or None"""
    if e.name == INF:
        return e.args[0], e.args[1]
    a = e.args
    out = []
    for k in (0, 4):
        if not (is_field(a[k], "term") and is_field(a[k + 1], "punct") and is_field(a[k + 2], "stamp")):
            return None
        s = a[k].a[0]
        if a[k + 1].a[0] is not s or a[k + 2].a[0] is not s or not (a[k + 3].op == "call" and a[k + 3].a[0] == TV and a[k + 3].a[1] is s):
            return None
        out.append(s)
    return tuple(out)


def deriver(rep):
    g = rep.graph(WORKER, atoms=[INF, INF2, SINGLE, ADD, QA, TV] + [x for x in NEST if x != "NarMem::ret_beliefs_of_concept"], spawn_inline=True)
    recv = [e for e in g.events("call") if e.name == "Receiver::recv"]
    recv = recv or [e for l in loops.loops(g) for e in l.nexts if e.args and e.args[0].op == "call" and e.args[0].a[0].startswith("Receiver::")][:1]
    if not rep.check(bool(recv), "deriver-receives", "recv", "the deriver receives nothing"):
        return
    msg = [v for v in list(g.pool.t.values()) if v.op in ("okval", "vfield") and v.a[0] is recv[0].val or recv[0].name != "Receiver::recv" and v.op == "elem" and v.a[0] is recv[0].args[0]]
    prim = lambda v: is_field(v, "sentence") and is_field(v.a[0], "primary") and any(v.a[0].a[0] is m for m in msg)
    adds = [e for e in g.events("call") if e.name == ADD]
    if not rep.check(bool(adds), "conclusions-added", "call", "no conclusion is added"):
        return
    # the list of conclusions
    lists = {}
    for e in adds:
        c = e.args[1]
        b = c.a[0] if c.op == "field" else c
        el = loops.element_of(b)
        if rep.check(el is not None, "conclusions-added", "what", "%s: added is %s, not a conclusion" % (e.where, show(c))):
            lists.setdefault(rank.strip(el)[0], []).append(e)
            mul = e.args[5]
            want = {True for x in q.subs(mul) if is_field(x, "mulCredit")}, {True for x in q.subs(mul) if x is g.field(b, "1")}
            rep.check(bool(want[0]) and bool(want[1]), "conclusions-attention", "mul", "%s: the conclusion's attention is %s, not that of its parent times the bias of the rule" % (e.where, show(mul)))
    main = recv[0].node.id
    outer = rank.in_loop(g, recv[0].node)
    stops = ({outer.head} if outer else set()) | {r.id for r in g.root.retnodes}
    closed = lambda d: any(v.op in ("isv", "isok") and v.a[0] is recv[0].val and not p and (v.op == "isok" or v.a[1] == "Ok") or v.op == "isv" and v.a[0] is recv[0].val and v.a[1] == "Err" and p or
                           v.op == "isv" and v.a[0] is recv[0].val and v.a[1] == "Some" and not p for v, p in d)

    def always(ids, rule, key, text, start=None, excuse=closed):
        for u, x, ds in rank.avoid(g, start if start is not None else main, ids, stops):
            for d in ds:
                if g.nodes[x].facts:
                    rep.check(rank.known(g, d, excuse), rule, key, "%s [%s]" % (text, q.fmt(d)))
    for C, es in lists.items():
        r = rank.each(g, es, lambda x: x is C)
        if not rep.check(bool(r), "conclusions-added", "all", "%s: not all conclusions are added" % es[0].where):
            continue
        for nd, rs in r:
            rep.check(not rs, "conclusions-added", "each", "%s: %s" % (es[0].where, rs[:1]))
        always({nd for nd, rs in r}, "conclusions-added", "path", "the conclusions may not be added")
        cs = q.contents(g, C)
        vals = [v for k, v, _ in cs]
        # single premise
        sing = [e for e in g.events("call") if e.name == SINGLE]
        if rep.check(any(prim(e.args[0]) for e in sing), "derives-single", "call", "no single-premise inference with the primary premise"):
            for e in sing:
                rep.check(prim(e.args[0]), "derives-single", "arg", "%s: single-premise inference of %s" % (e.where, show(e.args[0])))
                rep.check(flows(g, e.val, vals), "derives-single", "kept", "%s: the results are not among the conclusions" % e.where)
            always({e.node.id for e in sing}, "derives-single", "path", "single-premise inference may be skipped")
        twos = []
        for e in g.events("call"):
            if e.name in (INF, INF2):
                p = pair(g, e)
                if p is None:
                    rep.bad("derives-pair", "consistent", "%s: the premises are put together from different sentences: %s" % (e.where, [show(a) for a in e.args]))
                    continue
                if prim(p[0]):
                    twos.append((e, p[1]))
                elif prim(p[1]):
                    twos.append((e, p[0]))
                else:
                    continue
                rep.check(flows(g, e.val, vals), "derives-pair", "kept", "%s: the results are not among the conclusions" % e.where)
        self_ = lambda d: any(v.op == "call" and v.a[0] == "Arc::ptr_eq" and p and any(is_field(k, "primary") for k in kids(v)) for v, p in d)
        conc = lambda v: any(x.op in ("hget", "idx", "call", "vfield") and any(is_field(y, "concepts") for y in q.subs(x)) for x in q.subs(v)) and any(is_field(y, "term") and prim(y.a[0]) for y in q.subs(v))
        noconcept = lambda d: any(v.op == "isv" and v.a[1] == "Some" and not p and v.a[0].op == "call" and v.a[0].a[0] == "HashMap::get" or v.op == "call" and v.a[0] == "HashMap::contains_key" and not p for v, p in d)
        wants = [("the partners", lambda x: is_field(x, "secondary") and any(x.a[0] is m for m in msg), self_, closed)]
        for t in ("beliefsByExp", "beliefsByUsage"):
            wants.append((t, lambda x, t=t: is_field(x, t) and conc(x), lambda d: False, lambda d: closed(d) or noconcept(d)))
        for what, isA, excuse, outx in wants:
            es = [e for e, o in twos if any(isA(rank.strip(z)[0]) for y in q.subs(o) for c in [loops.element_of(y)] if c is not None for z in loops.parts(loops.payload(g, c)))]
            if not rep.check(bool(es), "derives-pair", what, "no two-premise inference of the primary premise with %s" % what):
                continue
            r = rank.each(g, es, isA, excuse=excuse)
            halves = sliced(g, es, isA) if not [1 for nd, rs in r if not rs] else None
            if halves:
                ok = True
                for e, L in halves:
                    rs = [d for u, x, ds in rank.avoid(g, L.head, {e.node.id}, {L.head}, L.body) for d in ds if not L.exhausted(d) and not rank.known(g, d, excuse)]
                    rs += [d for u, x, d in L.early() if g.nodes[x].facts]
                    rep.check(not rs, "derives-pair", what + ":each", "%s: one of %s may be skipped [%s]" % (e.where, what, q.fmt(rs[0]) if rs else ""))
                r = [(L.head, []) for e, L in halves]
                for nd, _ in r:
                    alw(rep, g, always, es, {nd}, what, outx)
                continue
            good = [(nd, rs) for nd, rs in r if not rs]
            if not rep.check(bool(good), "derives-pair", what + ":each", "%s: not all of %s are combined with the primary premise: %s" % (es[0].where, what, [rs[:1] for nd, rs in r])):
                continue
            alw(rep, g, always, es, {nd for nd, _ in good}, what, outx)
    rep.floor("derives-pair", len(lists), 1, "lists of conclusions")


def alw(rep, g, always, es, ids, what, outx):
    # code in a spawned thread hangs on the spawn
    for nd in list(ids):
        for e in es:
            i = e.inst
            while i is not None and i.parent is not None:
                by = adt._closures(g)
                if i.id in by and by[i.id][1].name in ("functions::spawn", "thread::spawn"):
                    ids = set(ids) | {by[i.id][1].node.id}
                i = i.parent
    always(ids, "derives-pair", what + ":path", "inference with %s may be skipped altogether" % what, excuse=outx)


def sliced(g, es, isA):
    """two loops over X[..k] and X[k..]"""
    lo, hi = {}, {}
    for l in loops.loops(g):
        for n in l.nexts:
            c = n.args[0]
            while c.op == "mapped":
                c = c.a[0]
            if c.op == "idx" and isA(c.a[0]) and c.a[1].op == "agg":
                fs = dict(zip(c.a[1].a[2], c.a[1].a[3:]))
                for e in es:
                    if e.node.id in l.body:
                        if set(fs) == {"end"} or set(fs) == {"start", "end"} and loops.ival(fs["start"]) == 0:
                            lo[fs["end"].id] = (e, l)
                        if set(fs) == {"start"}:
                            hi[fs["start"].id] = (e, l)
    for k in lo:
        if k in hi:
            return [lo[k], hi[k]]
    return None


def flows(g, v, vals):
    return any(x is v for x in vals) or any(x.op == "elem" and x.a[0] is v for x in vals)


def check(rep):
    argmax(rep)
    cycle(rep)
    deriver(rep)
