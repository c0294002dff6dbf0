"""C16: anticipation: unfulfilled predictions count against the rule, once, at their deadline."""
import adt
import best
import loops
import q
import rank
import c15
from c13 import is_field
from vg import show, kids, V

LEVEL = "other"
RULE = ("Step begin: every update of the anticipations drops an element only if its predicted event equals one of the newest cfgPerceptWindow events or its deadline is reached, and keeps it only if not; "
        "the rule of every element whose deadline is reached (and of no other) gets one more count and the same positive count, after the fulfilled ones are dropped and before the late ones are; late ones are dropped on every path. "
        "Execution: an anticipation is added exactly if a goal is executed and anticipation is enabled, with the evidence of that goal and the deadline t + table[its expDt or 0].")
ASSUME = ["Vec/iterator semantics of std", "checkEqTerm is decided by C07, the choice of the goal by C15"]
EQ = "Term::checkEqTerm"
BEGIN = "NarProc::narStep0"


def isF(v):
    return is_field(v, "anticipatedEvents")


def ant(v):
    """v is one of the anticipations"""
    c = loops.element_of(v)
    return c is not None and (isF(c) or isF(loops.unfilter(c)[0] or c))


def late(v, p):
    """True: deadline of an anticipation is reached, False: it is not, None: says nothing"""
    c = rank.less(v, p)
    if not c:
        return None
    lo, hi, strict = c
    dl = lambda x: is_field(x, "deadline") and ant(x.a[0])
    t = lambda x: is_field(x, "t") and x.a[0].op == "param"
    if dl(lo) and t(hi) and not strict:
        return True
    if t(lo) and dl(hi) and strict:
        return False
    return None


def touches(v):
    return is_field(v, "deadline")


def predicted(v):
    """the anticipation whose predicted event v is"""
    if v.op == "vfield" and v.a[1] == "Stmt" and v.a[2] == "2":
        v = v.a[0]
        v = v.a[0] if is_field(v, "term") else v
        if is_field(v, "evi") and ant(v.a[0]):
            return v.a[0]
    return None


def match(v):
    """event with which an anticipation is compared"""
    if v.op == "call" and v.a[0] == EQ or v.op == "bin" and v.a[0] == "Eq":
        a, b = kids(v)[-2:]
        for x, y in ((a, b), (b, a)):
            if predicted(x) is not None:
                return y
    return None


def matched(g, d):
    return rank.known(g, d, lambda x: best.has(x, lambda v, p: p and match(v) is not None))


def unmatched(g, d, depth=3):
    """the facts say that the predicted event is none of those it is compared with"""
    for v, p in d:
        if match(v) is not None and not p:
            return True
        if v.op in ("any", "all") and p == (v.op == "all"):
            ts = rank.truths(g, v.a[2], p)
            if ts and all(unmatched(g, x, depth - 1) for x in ts):
                return True
        if v.op == "isv" and v.a[0].op in ("found", "position") and p == (v.a[1] == "None"):
            ts = rank.truths(g, v.a[0].a[1], False)
            if ts and all(unmatched(g, x, depth - 1) for x in ts):
                return True
        if v.op == "phi" and g.is_bool(v) and depth:
            other = adt.flag_edges(g, v, not p)
            if other and all(matched(g, x) for x in other):
                return True
    return False


def updates(g):
    """[(event, kind, value)] of the changes to the list of anticipations"""
    out = [(e, "set", v) for t, v, e in q.writes(g, "anticipatedEvents") if g.nodes[e.node.id].facts]
    for e in g.events("call"):
        if g.nodes[e.node.id].facts and e.args and isinstance(e.args[0], V) and isF(e.args[0]):
            if e.name in ("Vec::retain", "Vec::retain_mut"):
                out.append((e, "retain", e.args[1]))
            elif e.name in q.PUSH or e.name in q.EXTEND:
                out.append((e, "add", e.args[1]))
            elif e.name == "Vec::drain" and e.args[1].op == "agg" and "RangeFull" in str(e.args[1].a[0]) and not adt.skips(g, e.node.id, None, next((x.node.id for x, k, _ in out if k == "set" and adt.skips(g, e.node.id, None, None, {x.node.id})), None), {r.id for r in g.root.retnodes}):
                pass  # all are taken out and the list is set afterwards
            elif e.name.startswith("Vec::") and e.name.split("::")[1] in ("remove", "swap_remove", "pop", "truncate", "clear", "insert", "split_off", "drain", "dedup_by"):
                out.append((e, "other", e.val))
    return out


def fates(rep, g, e, kind, val):
    """(kept fact lists, dropped fact lists) of an update"""
    if kind == "retain":
        return rank.truths(g, val, True), rank.truths(g, val, False)
    if kind != "set":
        return None
    base, fs = loops.unfilter(val)
    if base is not None and isF(base):
        kept, dropped = [[]], []
        for r in fs:
            kept = [q.merge(a, b) for a in kept for b in rank.truths(g, r, True)]
            dropped += rank.truths(g, r, False)
        if val.op == "mapped":
            rep.check(ant(val.a[1]), "update", "same", "%s: the anticipation kept is %s, not the one it was" % (e.where, show(val.a[1])))
        return kept, dropped
    if val.op == "new":
        kept, dropped, n = [], [], 0
        ps = [x for x in g.events("call") if x.name in q.PUSH and x.args[0] is val and g.nodes[x.node.id].facts]
        for x in ps:
            rep.check(ant(x.args[1]), "update", "same", "%s: the anticipation kept is %s, not the one it was" % (x.where, show(x.args[1])))
            kept += q._fs(g, g.nodes[x.node.id].facts)
        for x in ps:
            for l in loops.loops(g):
                c = [z for z in l.sources() if isF(z)] or [z for z, f in l.filtered() if isF(z)]
                if x.node.id in l.body and c:
                    n += 1
                    for z, f in l.filtered():
                        for r in f:
                            dropped += rank.truths(g, r, False)
                    for u, y, ds in rank.avoid(g, l.head, {z.node.id for z in ps}, {l.head}, l.body):
                        dropped += [d for d in ds if not l.exhausted(d)]
                    for u, y, d in l.early():
                        if g.nodes[y].facts and u in l.own and rank.returns(g, y):
                            rep.bad("update", "early", "%s: the anticipations behind some element are lost [%s]" % (e.where, q.fmt(d)))
        if n:
            return kept, dropped
    return None


def begin(rep):
    g = rep.graph(BEGIN, atoms=[EQ, "<NarProc::TraceDefault as NarProc::Trace>::step", "NarProc::Trace::step", "Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"])
    nar = adt.param(g, 1)
    rets = {r.id for r in g.root.retnodes}
    # which update does what
    conf, exp = [], []
    for e, kind, val in updates(g):
        f = fates(rep, g, e, kind, val)
        if not rep.check(f is not None, "update", "form", "%s: the anticipations become %s" % (e.where, show(val))):
            continue
        kept, dropped = f
        isL = lambda d: rank.known(g, d, lambda x: best.has(x, lambda v, p: late(v, p) is True))
        notL = lambda d: rank.known(g, d, lambda x: best.has(x, lambda v, p: late(v, p) is False))
        rep.check(bool(dropped), "update", "drops", "%s: nothing is ever dropped" % e.where)
        for d in dropped:
            rep.check(matched(g, d) or isL(d), "update", "drop", "%s: an anticipation may be dropped that is neither fulfilled nor late [%s]" % (e.where, q.fmt(d)))
        c = any(matched(g, d) for d in dropped)
        x = any(isL(d) for d in dropped)
        for d in kept:
            if c:
                rep.check(unmatched(g, d), "update", "keep-fulfilled", "%s: an anticipation may be kept though it is fulfilled [%s]" % (e.where, q.fmt(d)))
            if x:
                rep.check(notL(d), "update", "keep-late", "%s: an anticipation may be kept though it is late [%s]" % (e.where, q.fmt(d)))
        if c:
            conf.append(e)
        if x:
            exp.append(e)
    rep.check(bool(conf), "update", "confirm", "fulfilled anticipations are never dropped")
    rep.check(bool(exp), "update", "expire", "late anticipations are never dropped")
    cids, xids = {e.node.id for e in conf}, {e.node.id for e in exp}
    # the window of events an anticipation is compared with
    n = 0
    for e in g.events("call"):
        if e.val is None or match(e.val) is None or not g.nodes[e.node.id].facts:
            continue
        n += 1
        w = match(e.val)
        if not rep.check(is_field(w, "name"), "window", "event", "%s: the predicted event is compared with %s" % (e.where, show(w))):
            continue
        x = w.a[0]
        view = loops.element_of(x)
        if x.op == "elem":
            # the view the loop or closure goes over
            ls = [l for l in loops.loops(g) if e.node.id in l.body]
            cs = [y.args[0] for l in ls for y in l.nexts] + [c for i, (c, ev) in adt._closures(g).items() if c is not None and inside(e, i)]
            cs = [c for c in cs if rank.strip(c)[0] is (rank.strip(view)[0] if view is not None else None)]
            view = cs[0] if cs else view
        c15.newest(rep, g, x, view)
        # every event of the window
        outer = [l for l in loops.loops(g) if e.node.id in l.body and not any(isF(z) for z in l.sources()) and not any(isF(z) for z, _ in l.filtered())]
        for l in outer:
            rest = lambda d: rank.known(g, d, lambda y: best.has(y, lambda v, p: (lambda c: c is not None and not c[2] and loops.len_of(c[0]) is not None)(rank.less(v, p)) or match(v) is not None and p))
            for u, y, ds in rank.avoid(g, l.head, cids | {e.node.id}, {l.head}, l.body):
                for d in ds:
                    rep.check(l.exhausted(d) or rest(d), "window", "skip", "an event of the window may not be compared with the anticipations [%s]" % q.fmt(d))
            for u, y, d in l.early():
                if u in l.own and g.nodes[y].facts and rank.returns(g, y):
                    rep.check(rest(d), "window", "early", "the events behind some event may not be compared with the anticipations [%s]" % q.fmt(d))
    rep.floor("window", n, 1, "comparisons with the predicted event")
    # late: one more count
    pun = []
    for t, v, e in q.writes(g):
        if not g.nodes[e.node.id].facts or not any(ant(x) for x in q.subs(t)):
            continue
        x = t
        while x.op in ("field", "vfield") and not ant(x):
            x = x.a[0]
        path = []
        y = t
        while y.op in ("field", "vfield") and not ant(y):
            path.append(y.a[-1])
            y = y.a[0]
        if not ant(y):
            continue
        if path == ["evi", "evi"]:
            ev = g.field(g.field(y, "evi"), "evi")
            old = g.vfield(ev, "Some", "0")
            w = v.a[3] if v.op == "agg" and v.a[1] == "Some" else None
            if not rep.check(w is not None and w.op == "agg" and w.a[1] == "CNT", "count", "kind", "%s: the evidence becomes %s" % (e.where, show(v))):
                continue
            fs = dict(zip(w.a[2], w.a[3:]))
            rep.check(fs["pos"] is g.vfield(old, "CNT", "pos"), "count", "pos", "%s: the positive count becomes %s" % (e.where, show(fs["pos"])))
            rep.check(adt.linear(g, fs["cnt"]) == {g.vfield(old, "CNT", "cnt"): 1, 1: 1}, "count", "cnt", "%s: the count becomes %s" % (e.where, show(fs["cnt"])))
            pun.append(e)
        elif path[-1:] == ["evi"] and path[0] in ("cnt", "pos") and len(path) > 2:
            rep.check(path[0] == "cnt" and adt.linear(g, v) == {t: 1, 1: 1}, "count", "cnt", "%s: %s becomes %s" % (e.where, show(t), show(v)))
            pun.append(e)
        else:
            rep.bad("count", "other", "%s: %s of an anticipation is changed" % (e.where, show(t)))
    if not rep.check(bool(pun), "count", "exists", "late anticipations never count against their rule"):
        return
    rep.floor("count", len(pun), 1, "places where a rule gets a negative count")
    isL = lambda d: rank.known(g, d, lambda x: best.has(x, lambda v, p: late(v, p) is True))
    def early_or_other(d):
        return rank.known(g, d, lambda x: best.has(x, lambda v, p: late(v, p) is False or match(v) is not None and p or v.op == "isv" and has_evi(v.a[0]) and p == (v.a[1] in ("TV", "None"))))
    for e in pun:
        for d in q._fs(g, g.nodes[e.node.id].facts):
            # (facts of a filtered stream are those of its predicate)
            fl = [r for l in loops.loops(g) if e.node.id in l.body for b, f in l.filtered() if isF(b) for r in f]
            fl += [r for i, (c, ev) in adt._closures(g).items() if c is not None and inside(e, i) for b, f in [loops.unfilter(c)] if b is not None and isF(b) for r in f]
            ds = [d]
            for r in fl:
                ds = [q.merge(a, b) for a in ds for b in rank.truths(g, r, True)]
            for x in ds:
                rep.check(isL(x), "count", "late", "%s: a rule may get a negative count before the deadline [%s]" % (e.where, q.fmt(x)))
        ls = [l for l in loops.loops(g) if e.node.id in l.body]
        for l in ls:
            rep.check(any(isF(z) for z in l.sources()) or any(isF(z) for z, _ in l.filtered()), "count", "once", "%s: the negative count may be given more than once per step (loop)" % e.where)
        # fulfilled ones are gone, late ones go afterwards
        for c in conf:
            if c in exp and all(unmatched(g, d) for d in q._fs(g, g.nodes[e.node.id].facts)):
                continue
            rep.check(not adt.skips(g, e.node.id, None, None, {c.node.id}), "order", "confirm", "%s: a fulfilled anticipation may count against its rule: fulfilled ones are dropped afterwards" % e.where)
        for x in exp:
            before = adt.skips(g, x.node.id, None, None, {e.node.id})
            rep.check(not before, "order", "expire", "%s: late anticipations are dropped before they count against their rule" % x.where)
        for u, y, ds in rank.avoid(g, e.node.id, xids, rets, panics=False):
            rep.bad("order", "drop-late", "%s: an anticipation that counted against its rule may be kept [%s]" % (e.where, q.fmt(ds[0])))
    rs = rank.each(g, pun, isF, early_or_other, panics=False)
    if rep.check(bool(rs), "count", "all", "not all anticipations are checked for their deadline"):
        for nd, reasons in rs:
            for r in reasons:
                rep.bad("count", "skip", "a late anticipation may not count against its rule: %s" % r)
    # the step always gets there
    heads = {nd for nd, _ in rs}
    for u, y, ds in rank.avoid(g, 0, heads, rets, panics=False):
        rep.bad("count", "path", "late anticipations may not be handled in a step [%s]" % q.fmt(ds[0]))


def has_evi(v):
    return any(is_field(x, "evi") and any(ant(y) for y in q.subs(x)) for x in q.subs(v))


def inside(e, iid):
    i = e.inst
    while i is not None:
        if i.id == iid:
            return True
        i = i.parent
    return False


def execution(rep):
    g = rep.graph(c15.STEP, atoms=c15.ATOMS)
    nar = adt.param(g, 1)
    F = g.field(nar, "anticipatedEvents")
    adds, other = [], []
    for e, kind, val in updates(g):
        (adds if kind == "add" else other).append((e, val))
    for e, v in other:
        rep.bad("add", "other", "%s: the anticipations change otherwise than by adding one" % e.where)
    if not rep.check(bool(adds), "add", "exists", "executing a goal never adds an anticipation"):
        return
    rep.floor("add", len(adds), 1, "places where an anticipation is added")
    # what makes up an executed goal: the desirability of the chosen goal is reset
    gone = [e for t, v, e in q.writes(g, "desirability") if g.nodes[e.node.id].facts]
    for e, v in adds:
        rep.check(not any(e.node.id in l.body for l in loops.loops(g)), "add", "once", "%s: more than one anticipation may be added" % e.where)
        if not rep.check(v.op == "agg" and "evi" in v.a[2], "add", "form", "%s: the anticipation added is %s" % (e.where, show(v))):
            continue
        fs = dict(zip(v.a[2], v.a[3:]))
        evi, dl = fs["evi"], fs["deadline"]
        ent = c15.payload(evi)
        if not rep.check(ent is not None and is_field(ent, "evidence"), "add", "evidence", "%s: the rule anticipated is %s" % (e.where, show(evi))):
            continue
        ent = ent.a[0]
        rep.check(any(best.root(t) is best.root(ent) or t.a[0] is ent for t, _, _ in q.writes(g, "desirability")), "add", "goal", "%s: the rule anticipated is not that of the goal executed" % e.where)
        want = [x.node.id for x in gone]
        for l, x in deadline_alts(g, e, dl):
            m = adt.linear(g, x)
            ks = {k for k in m if isinstance(k, V)}
            t = [k for k in ks if is_field(k, "t") and k.a[0] is nar]
            tb = [k for k in ks if k.op == "idx" and is_field(k.a[0], "expIntervalsTable")]
            rep.check(len(m) == 2 and len(t) == 1 and len(tb) == 1 and all(c == 1 for c in m.values()), "add", "deadline", "%s: the deadline is %s" % (e.where, show(x)))
            for k in tb:
                for d, i in index_alts(g, k.a[1]):
                    i = rank.uncast(i)
                    if loops.ival(i) == 0:
                        rep.check(d is None or all(rank.known(g, y, c15.none(lambda o: is_field(o, "expDt"))) for y in d), "add", "default-interval", "%s: the default interval may be used though the rule has one" % e.where)
                        continue
                    rep.check(c15.payload(i) is not None and c15.payload(i) is g.field(evi, "expDt"), "add", "interval", "%s: the interval is number %s of the table" % (e.where, show(i)))
        off = lambda d: rank.known(g, d, lambda z: best.has(z, lambda v_, p: is_field(v_, "cfg__enAnticipation") and not p))
        for x in gone:
            lost = []
            for st, stops in ((x.node.id, c15.rets(g)), (0, {x.node.id})):
                lost.append([d for u, y, ds in rank.avoid(g, st, {e.node.id}, stops, panics=False) for d in ds if not off(d)])
            rep.check(not all(lost), "add", "skip", "a goal may be executed without an anticipation though they are enabled [%s]" % (q.fmt(lost[0][0]) if lost[0] else ""))
        for d in q._fs(g, g.nodes[e.node.id].facts):
            rep.check(rank.known(g, d, lambda z: best.has(z, lambda v_, p: is_field(v_, "cfg__enAnticipation") and p)), "add", "enabled", "%s: an anticipation may be added though they are disabled [%s]" % (e.where, q.fmt(d)))
        un = adt.skips
        w = want[0] if len(want) == 1 else None
        rep.check(w is None or not un(g, 0, None, w, {e.node.id}) or not un(g, e.node.id, None, w, c15.rets(g)), "add", "executed", "%s: an anticipation may be added without a goal being executed" % e.where)
        for e2, _ in adds:
            rep.check(e2 is e or not un(g, e.node.id, None, None, {e2.node.id}), "add", "once", "%s: more than one anticipation may be added" % e2.where)


def deadline_alts(g, e, v):
    return [(d, x) for x, d in q.alts(g, e.node, v)] if v.op == "phi" else [(None, v)]


def index_alts(g, v):
    """[(facts or None, index)]"""
    v = rank.uncast(v)
    if v.op == "call" and v.a[0] in ("Option::unwrap_or",):
        return [(None, g.vfield(v.a[1], "Some", "0")), (None, v.a[2])]
    if v.op == "phi":
        out = []
        for pr, w in rank.settings(g, v):
            out.append((q._fs(g, g.OUT.get(pr) or []), w))
        return out
    return [(None, v)]


def check(rep):
    begin(rep)
    execution(rep)
