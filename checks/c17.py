"""C17: rules are learned from what happened: order of events, operations, evidence and intervals."""
import adt
import best
import loops
import q
import rank
import c15
from c24 import walk
from c15 import call, payload, none
from c13 import is_field
from c22 import fnum
from vg import show, kids, V

LEVEL = "other"
RULE = ("Trace: an event is appended on every path, the view is the whole trace in order, the limit keeps the newest. "
        "Sampling: the events selected are trace elements at sorted positions: one before the first op, distinct ops, the last or (if after all ops and no op) the one before; on every path on which a rule can be built from them it is sent to be stored, with their terms in order, "
        "the evidence of all of them, the interval between the last two and equal positive and total count taken from the op. "
        "Rule: (first, ops...) =/> last exactly if first and last are no callable ops, differ, and all between are. Interval table: strictly increasing powers up to the maximum; the index looked up is that of the last entry not above the interval.")
ASSUME = ["std sort, min, max and rand::gen_range semantics", "TraceDefault is the only implementation of Trace (checked)", "decodeOp, newStamp, checkEqTerm are decided by C08, C03, C07"]
T = "<NarProc::TraceDefault as NarProc::Trace>::"
P = "NarProc::"
OPS, CALLABLE, BUILD, MINIDX = P + "calcIdxsOfOps", P + "checkIsCallableOp", P + "try_build_implSeq", P + "findMinTableIdx"
EQ, DEC, BYNAME, STAMP = "Term::checkEqTerm", "TermUtils::decodeOp", P + "ret_op_by_name", "NarStamp::newStamp"
OCC = "NarGoalSystem::event_occurred"
STR = ["Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"]


def known(g, d, f):
    return rank.known(g, d, lambda x: best.has(x, f))


# ---------------------------------------------------------------- the trace
def trace(rep):
    impls = sorted({f.split(" as ")[0][1:] for f in rep.c.fns if " as NarProc::Trace>::step" in f})
    rep.check(impls == ["NarProc::TraceDefault"], "trace", "impl", "implementations of Trace: %s" % impls)
    f = T + "event_happened"
    if f in rep.c.fns:
        g = rep.graph(f)
        tr, ev = g.field(adt.param(g, 1), "trace"), adt.param(g, 2)
        ps = [e for e in g.events("call") if e.args and e.args[0] is tr and e.name in q.PUSH and e.args[1] is ev]
        rep.check(len(ps) == 1 and adt.always(g, ps[0].node) and not any(ps[0].node.id in l.body for l in loops.loops(g)), "trace", "append", "an event that happened is not appended to the trace exactly once")
        for e in g.events("call"):
            if e.args and e.args[0] is tr and e not in ps and e.name not in adt.READERS and e.name.startswith(("Vec::", "slice::")):
                rep.bad("trace", "append-other", "%s: the trace is also changed by %s" % (e.where, e.name))
    f = T + "ret_view"
    if f in rep.c.fns:
        g = rep.graph(f)
        tr = g.field(adt.param(g, 1), "trace")
        n = 0
        for v in q.returned(g):
            n += 1
            fx, why = adt.list_map(g, v, tr)
            rep.check(fx == "same" or fx is not None and adt.is_elem(fx, tr), "trace", "view", "the view of the trace is not all events in order: %s" % (why or show(v)))
        rep.floor("trace", n, 1, "views of the trace")
    f = T + "limit"
    if f in rep.c.fns:
        limit(rep, rep.graph(f))


def suffix_len(g, v, tr):
    """n if v is the number of elements before the last n ones"""
    m = adt.linear(g, v)
    ks = [k for k in m if isinstance(k, V)]
    if len(ks) == 1 and loops.len_of(ks[0]) is tr and m[ks[0]] == 1:
        return -m.get(1, 0)
    if v.op == "call" and v.a[0] == "usize::saturating_sub" and loops.len_of(v.a[1]) is tr:
        return loops.ival(v.a[2])
    return None


def limit(rep, g):
    tr = g.field(adt.param(g, 1), "trace")
    kept = []
    for t, v, e in q.writes(g):
        if t is not tr or not g.nodes[e.node.id].facts:
            continue
        b = v
        while b.op == "mapped" and b.a[1].op in ("elem",) or b.op == "call" and b.a[0] in ("Iterator::cloned",):
            b = b.a[0] if b.op == "mapped" else b.a[1]
        n = None
        if b.op == "idx" and b.a[0] is tr and b.a[1].op == "agg":
            fs = dict(zip(b.a[1].a[2], b.a[1].a[3:]))
            if "start" in fs and ("end" not in fs or loops.is_len(fs["end"], tr)):
                n = suffix_len(g, fs["start"], tr)
        elif b.op == "call" and b.a[0] == "Iterator::skip" and b.a[1] is tr:
            n = suffix_len(g, b.a[2], tr)
        elif b.op == "call" and b.a[0] == "Vec::split_off" and b.a[1] is tr:
            n = suffix_len(g, b.a[2], tr)
        kept.append((e, n, v))
    for e in g.events("call"):
        if not e.args or e.args[0] is not tr or not g.nodes[e.node.id].facts:
            continue
        if e.name == "Vec::drain":
            a = e.args[1]
            fs = dict(zip(a.a[2], a.a[3:])) if a.op == "agg" else {}
            n = suffix_len(g, fs["end"], tr) if "end" in fs and ("start" not in fs or loops.ival(fs["start"]) == 0) and "Inclusive" not in str(a.a[0]) else None
            kept.append((e, n, e.val))
        elif e.name == "Vec::remove" and loops.ival(e.args[1]) == 0:
            for d in q._fs(g, g.nodes[e.node.id].facts):
                ns = [loops.ival(c[0]) for v, p in d for c in [rank.less(v, p)] if c and c[2] and loops.len_of(c[1]) is tr]
                kept.append((e, ns[0] if ns else None, e.val))
        elif e.name in ("Vec::truncate", "Vec::clear", "Vec::pop", "Vec::swap_remove", "Vec::remove", "Vec::insert", "Vec::retain", "Vec::push", "slice::reverse", "slice::swap"):
            rep.bad("trace-limit", "other", "%s: the trace is changed by %s" % (e.where, e.name))
    rep.floor("trace-limit", len(kept), 1, "places where the trace is shortened")
    for e, n, v in kept:
        if not rep.check(n is not None and n >= 3, "trace-limit", "newest", "%s: the trace becomes %s, not its newest events" % (e.where, show(v))):
            continue
        over = lambda v_, p: (lambda c: c is not None and loops.len_of(c[0]) is tr and loops.ival(c[1]) is not None and loops.ival(c[1]) <= n + (1 if c[2] else 0))(rank.less(v_, p))
        stops = {r.id for r in g.root.retnodes}
        for u, x, ds in rank.avoid(g, 0, {e.node.id}, stops, panics=False):
            for d in ds:
                rep.check(known(g, d, over), "trace-limit", "always", "%s: the trace may stay longer than %d [%s]" % (e.where, n, q.fmt(d)))


# ---------------------------------------------------------------- helpers of the rule
def callable_op(rep):
    if CALLABLE not in rep.c.fns:
        return
    g = rep.graph(CALLABLE, atoms=[DEC, BYNAME])
    nar, t = adt.param(g, 1), adt.param(g, 2)
    ops = g.field(nar, "ops")
    isD = lambda o: call(o, DEC) and o.a[1] is t
    name = lambda v: c15.decoded(v, "1") is t

    def same(v, p):
        return p and v.op == "bin" and v.a[0] == "Eq" and any(name(x) and call(y, P + "Op::retName") and loops.element_of(y.a[1]) is ops for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1]))) or \
            best.is_some(v, p, lambda o: call(o, BYNAME) and o.a[1] is nar and name(o.a[2]))

    def never(d):
        return known(g, d, lambda v, p: best.is_none(v, p, isD) or best.is_none(v, p, lambda o: call(o, BYNAME) and o.a[1] is nar and name(o.a[2])) or
                     v.op == "isv" and v.a[0].op == "next" and v.a[1] == "Some" and not p and loops.whole(v.a[0].a[0]) is ops or
                     v.op == "any" and not p and loops.whole(v.a[0]) is ops and all(best.has(x, same) for x in rank.truths(g, v.a[2], True)))
    n = 0
    for e in g.events("return"):
        for val in (True, False):
            for d in rank.truths(g, e.val, val) if e.val.op != "phi" else [x for w, x in q.alts(g, e.node, e.val) for x in [q.merge(x, y) for y in rank.truths(g, w, val)]]:
                n += 1
                if val:
                    rep.check(known(g, d, same), "callable", "true", "%s: an op counts as callable though it is not known to be registered [%s]" % (e.where, q.fmt(d)))
                else:
                    rep.check(never(d), "callable", "false", "%s: an op may not count as callable though it is registered [%s]" % (e.where, q.fmt(d)))
    rep.floor("callable", n, 2, "results of the test for callable ops")
    for l in loops.loops(g):
        for u, x, d in l.early():
            if g.nodes[x].facts and rank.returns(g, x):
                rep.check(known(g, d, same), "callable", "early", "not all registered ops are looked at [%s]" % q.fmt(d))


def op_positions(rep):
    if OPS not in rep.c.fns:
        return
    g = rep.graph(OPS, atoms=[CALLABLE])
    nar, tr = adt.param(g, 1), adt.param(g, 2)
    isop = lambda v: call(v, CALLABLE) and is_field(v.a[2], "name") and loops.element_of(v.a[2].a[0]) is tr
    yes = lambda d: known(g, d, lambda v, p: p and isop(v))
    no = lambda d: known(g, d, lambda v, p: not p and isop(v))
    n = 0
    for v in q.returned(g):
        n += 1
        if v.op == "mapped" or v.op == "filtered":
            base, x = v, v.a[1] if v.op == "mapped" else None
            while base.op in ("mapped",):
                base = base.a[0]
            if not rep.check(base.op == "filtered" or v.a[3] == "Iterator::filter_map", "op-positions", "filter", "the positions of ops are %s" % show(v)):
                continue
            if base.op == "filtered":
                rep.check(all(yes(d) for d in rank.truths(g, base.a[2], True)) and all(no(d) for d in rank.truths(g, base.a[2], False)), "op-positions", "ops", "the positions of ops are those with %s" % show(base.a[2]))
            continue
        ps = [e for e in g.events("call") if e.name in q.PUSH and e.args[0] is v]
        if not rep.check(bool(ps), "op-positions", "ops", "the positions of ops are %s" % show(v)):
            continue
        for e in ps:
            x = rank.uncast(e.args[1])
            el = x.op == "elem" and x.a[0].op == "agg" or x.op == "count" or x.op == "phi"
            rep.check(el and not isinstance(loops.ival(x), int), "op-positions", "position", "%s: the position recorded is %s" % (e.where, show(x)))
            for d in q._fs(g, g.nodes[e.node.id].facts):
                rep.check(known(g, d, lambda v_, p: p and isop(v_) and (v_.a[2].a[0].op != "idx" or rank.uncast(v_.a[2].a[0].a[1]) is x)), "op-positions", "is-op", "%s: a position is recorded that is not known to hold a callable op [%s]" % (e.where, q.fmt(d)))
        rs = rank.each(g, ps, lambda c: c is tr, no)
        if rep.check(bool(rs), "op-positions", "all", "not all events are looked at"):
            for nd, why in rs:
                for w in why:
                    rep.bad("op-positions", "skip", "an op may be left out: %s" % w)
    rep.floor("op-positions", n, 1, "lists of op positions")


def min_index(rep):
    if MINIDX not in rep.c.fns:
        return
    g = rep.graph(MINIDX)
    iv, tab = adt.param(g, 1), adt.param(g, 2)
    n = 0
    for e in g.events("return"):
        idx = [l.index[0] for l in loops.loops(g) if l.index]
        for v, d in [(w, d) for pr, w in rank.settings(g, e.val, idx) for d in q._fs(g, g.OUT.get(pr) or [])] if e.val.op == "phi" else q.alts(g, e.node, e.val):
            v = rank.uncast(v)
            m = {rank.uncast(k) if isinstance(k, V) else k: c for k, c in adt.linear(g, v).items()}
            m2 = {}
            for k, c in m.items():
                for k2, c2 in (adt.linear(g, k).items() if isinstance(k, V) else [(k, 1)]):
                    m2[k2] = m2.get(k2, 0) + c * c2
            m = {k: c for k, c in m2.items() if c}
            ks = [k for k in m if isinstance(k, V)]
            if not rep.check(len(ks) == 1 and m[ks[0]] == 1, "min-index", "form", "%s: the index is %s" % (e.where, show(v))):
                continue
            k, off = ks[0], m.get(1, 0)
            n += 1
            if loops.len_of(k) is tab:
                rep.check(off == -1, "min-index", "last", "%s: the index for long intervals is %s" % (e.where, show(v)))
                # nothing in the table is above
                rest = known(g, d, lambda x, p: best.is_none(x, p, lambda o: o.op in ("position", "found")) or x.op == "isv" and x.a[0].op == "next" and x.a[1] == "Some" and not p) or any(l.exhausted(d) for l in loops.loops(g))
                rep.check(rest, "min-index", "exhausted", "%s: the last index may be returned though a smaller one fits [%s]" % (e.where, q.fmt(d)))
                continue
            if payload(k) is not None and payload(k).op == "position":
                ps = payload(k)
                base, lim = rank.strip(ps.a[0])
                sk = [loops.ival(x.a[2]) for kind, x in lim if kind == "other" and x.op == "call" and x.a[0] == "Iterator::skip"]
                rep.check(base is tab and off == (sum(sk) if sk else 0) - 1 and (sum(sk) if sk else 0) == 1, "min-index", "position", "%s: the index is %s" % (e.where, show(v)))
                ts = rank.truths(g, ps.a[1], True)
                rep.check(all(best.has(x, lambda y, p: (lambda c: c is not None and c[2] and c[0] is iv)(rank.less(y, p))) for x in ts), "min-index", "above", "%s: the entry found is the one with %s" % (e.where, show(ps.a[1])))
                continue
            rep.check(off == -1, "min-index", "before", "%s: the index is %s" % (e.where, show(v)))
            above = lambda y, p: (lambda c: c is not None and c[2] and c[0] is iv and c[1].op == "idx" and c[1].a[0] is tab and c[1].a[1] is k)(rank.less(y, p))
            rep.check(known(g, d, above), "min-index", "above", "%s: the entry behind the index is not known to be above the interval [%s]" % (e.where, q.fmt(d)))
            src = k.a[0] if k.op == "elem" else None
            fs = dict(zip(src.a[2], src.a[3:])) if src is not None and src.op == "agg" else {}
            ix = [l.index[1] for l in loops.loops(g) if l.index and l.index[0] is k]
            if ix:
                rep.check(ix[0] == [1] * len(ix[0]), "min-index", "range", "%s: the entries tried begin at %s" % (e.where, ix[0]))
            if fs:
                rep.check(loops.ival(fs.get("start")) == 1 and loops.len_of(fs["end"]) is tab, "min-index", "range", "%s: the entries tried are %s" % (e.where, show(src)))
    rep.floor("min-index", n, 2, "indices returned")
    for l in loops.loops(g):
        fits = lambda y, p: (lambda c: c is not None and not c[2] and c[1] is iv and c[0].op == "idx" and c[0].a[0] is tab)(rank.less(y, p))
        for nx in l.nexts:
            rep.check(adt.ordered(nx.args[0]), "min-index", "order", "the entries are tried in reverse")
        for p_, d in l.latches():
            rep.check(known(g, d, fits), "min-index", "first", "an entry above the interval may be passed over [%s]" % q.fmt(d))


def table(rep):
    g = rep.graph(P + "narInit", atoms=["NarMem::createMem", "NarGoalSystem::makeGoalSystem"] + STR)
    agg = [v for v in q.returned(g) if v.op == "agg"]
    if not rep.check(bool(agg), "intervals", "init", "narInit returns %s" % [show(v) for v in q.returned(g)]):
        return
    fs = dict(zip(agg[0].a[2], agg[0].a[3:]))
    tab, mx, base = fs["expIntervalsTable"], fs["cfgIntervalMax"], fs["cfgIntervalExpBase"]
    ps = [e for e in g.events("call") if e.name in q.PUSH and e.args[0] is tab and g.nodes[e.node.id].facts]
    if tab.op != "new":
        return  # (another way to build it)
    rep.floor("intervals", len(ps), 1, "places where the table of intervals grows")
    for e in ps:
        x = e.args[1]
        pw = rank.uncast(x)
        l = rank.in_loop(g, e.node)
        rep.check(call(pw, "f64::powf") or call(pw, "f64::powi"), "intervals", "power", "%s: the interval is %s" % (e.where, show(x)))
        if call(pw, "f64::powf") or call(pw, "f64::powi"):
            rep.check(pw.a[1] is base, "intervals", "base", "%s: the interval is %s" % (e.where, show(x)))
            k = rank.uncast(pw.a[2])
            if l is not None:
                rep.check(any(y.op != "const" for y in q.subs(k)), "intervals", "exponents", "%s: the exponent is always %s" % (e.where, show(k)))
            if k.op == "phi":
                for pr, w in rank.settings(g, k):
                    m = adt.linear(g, w)
                    n = m.get(1, 0)
                    own = {t: c for t, c in m.items() if isinstance(t, V)}
                    if not own:
                        rep.check(n == 0, "intervals", "exponents", "the first power is %s" % n)
                    elif own == {k: 1}:
                        rep.check(n == 1, "intervals", "exponents", "%s: the exponent advances by %s" % (e.where, n))
        b = fnum(base)
        rep.check(b is None or b > 1, "intervals", "base", "the base of the intervals is %s: their powers don't increase" % b)
        if l is None:
            continue
        for d in q._fs(g, g.nodes[e.node.id].facts):
            run = [c[0] for v, p in d for c in [rank.less(v, p)] if c and c[2] and c[1] is x and c[0].op == "phi"]
            okr = False
            for r in run:
                ss = rank.settings(g, r)
                okr |= bool(ss) and all(w is x or loops.ival(w) == 0 for pr, w in ss)
            emp = known(g, d, lambda v, p: best.is_none(v, p, lambda o: call(o, "slice::last") and o.a[1] is tab)) and known(g, d, lambda v, p: (lambda c: c is not None and c[1] is x and c[2] and loops.ival(c[0]) == 0)(rank.less(v, p)))
            lastel = known(g, d, lambda v, p: (lambda c: c is not None and c[2] and c[1] is x and any(y is tab for y in q.subs(c[0])))(rank.less(v, p)))
            rep.check(okr or lastel or emp, "intervals", "increasing", "%s: an interval is added that is not known to be longer than the last one [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, lambda v, p: (lambda c: c is not None and c[0] is x and (c[1] is mx or loops.ival(c[1]) is not None and c[1] is mx))(rank.less(v, p))), "intervals", "maximum", "%s: an interval above the maximum may be added [%s]" % (e.where, q.fmt(d)))
        for u, y, d in l.early():
            if g.nodes[y].facts and rank.returns(g, y):
                rep.check(known(g, d, lambda v, p: (lambda c: c is not None and c[1] is x and c[2])(rank.less(v, p))), "intervals", "all", "the table may end before the maximum [%s]" % q.fmt(d))


def build(rep):
    if BUILD not in rep.c.fns:
        return
    g = rep.graph(BUILD, atoms=[CALLABLE, EQ])
    nar, ev = adt.param(g, 1), adt.param(g, 2)
    first = lambda v: v.op in ("idx", "cidx") and v.a[0] is ev and (loops.ival(v.a[1]) == 0 if v.op == "idx" else v.a[1] == 0 and not v.a[2]) or is_opt(g, v, ev, "slice::first")
    last = lambda v: c15.last_of(g, v, ev) or is_opt(g, v, ev, "slice::last")
    isop = lambda v, f: call(v, CALLABLE) and f(v.a[2])

    def mid(c):
        c = strip_map(c)
        if c.op == "subslice":
            return c.a[0] is ev and c.a[1] == (1, 1) and bool(c.a[2])
        if c.op == "idx" and c.a[0] is ev and c.a[1].op == "agg":
            fs = dict(zip(c.a[1].a[2], c.a[1].a[3:]))
            end = fs.get("end")
            m = adt.linear(g, end) if end is not None else {}
            return loops.ival(fs.get("start")) == 1 and len(m) == 2 and m.get(1) == -1 and any(isinstance(k, V) and loops.len_of(k) is ev for k in m)
        return False

    def allops(v, p):
        if v.op == "all" and p or v.op == "any" and not p:
            ts = rank.truths(g, v.a[2], v.op == "all")
            good = all(best.has(x, lambda y, r: (r if not eqtrue(y) else r) and anyop(y)) for x in ts)
            return mid(v.a[0]) and good
        if v.op == "isv" and v.a[0].op == "next" and v.a[1] == "Some" and not p:
            return mid(v.a[0].a[0]) and scanned(g, v.a[0].a[0])
        return False

    def scanned(g_, c):
        for l in loops.loops(g):
            if any(n.args[0] is c for n in l.nexts):
                ok = all(known(g, d, lambda y, r: r and anyop(y)) for p_, d in l.latches())
                return ok and any(anyop(e.val) for e in g.events("call") if e.val is not None and e.node.id in l.body)
        return False
    n = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            some = v.op == "agg" and v.a[1] == "Some"
            if not some:
                if v.op == "agg" and v.a[1] == "None":
                    no = known(g, d, lambda x, p: p and isop(x, first) or p and isop(x, last) or p and call(x, EQ) or not p and anyop(x) and any(mid(y.a[0]) for y in q.subs(x) if y.op in ("elem", "idx")) or (x.op in ("all", "any") and mid(x.a[0]) and p == (x.op == "any")) or len_fact(x, p, ev))
                    rep.check(no, "rule", "refused", "%s: no rule is made of events that would make one [%s]" % (e.where, q.fmt(d)))
                else:
                    rep.bad("rule", "form", "%s: what is returned is %s" % (e.where, show(v)))
                continue
            n += 1
            rep.check(known(g, d, lambda x, p: not p and isop(x, first)), "rule", "first-no-op", "%s: the first event may be an op [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, lambda x, p: not p and isop(x, last)), "rule", "last-no-op", "%s: the last event may be an op [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, lambda x, p: not p and call(x, EQ) and {first(k) and "f" or last(k) and "l" for k in x.a[1:3]} == {"f", "l"}), "rule", "differ", "%s: first and last event may be the same [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, allops), "rule", "middle-ops", "%s: an event between may be no callable op [%s]" % (e.where, q.fmt(d)))
            t = v.a[3]
            if not rep.check(t.op == "agg" and t.a[1] == "Stmt" and t.a[3].op in ("agg", "const") and "PREDIMPL" in show(t.a[3]), "rule", "copula", "%s: the rule is %s" % (e.where, show(t))):
                continue
            rep.check(last(t.a[5]), "rule", "consequence", "%s: the consequence is %s" % (e.where, show(t.a[5])))
            sq = t.a[4]
            if not rep.check(sq.op == "agg" and sq.a[1] == "Seq", "rule", "condition", "%s: the condition is %s" % (e.where, show(sq))):
                continue
            s = strip_map(sq.a[3])
            seqitems(rep, g, e, s, first, mid, ev)
    rep.floor("rule", n, 1, "rules built")


def eqtrue(v):
    return v.op == "bin" and v.a[0] == "Eq" and any(k.op == "const" and k.a[1] is True for k in kids(v))


def anyop(v):
    if eqtrue(v):
        return any(anyop(k) for k in kids(v))
    return call(v, CALLABLE)


def len_fact(v, p, ev):
    c = rank.less(v, p)
    return c is not None and loops.len_of(c[0]) is ev and loops.ival(c[1]) is not None and loops.ival(c[1]) <= 3


def is_opt(g, v, ev, name):
    x = payload(v)
    return x is not None and call(x, name) and x.a[1] is ev


def strip_map(v):
    while v.op == "mapped" and v.a[1].op in ("elem", "call") and v.a[3] == "Iterator::map":
        v = v.a[0]
    return v


def seqitems(rep, g, e, s, first, mid, ev):
    """s holds the first event, then all between"""
    if s.op == "idx" and s.a[0] is ev and s.a[1].op == "agg":
        fs = dict(zip(s.a[1].a[2], s.a[1].a[3:]))
        m = adt.linear(g, fs["end"]) if "end" in fs else {}
        ok = ("start" not in fs or loops.ival(fs["start"]) == 0) and m.get(1) == -1 and len(m) == 2 and any(isinstance(k, V) and loops.len_of(k) is ev for k in m)
        rep.check(ok, "rule", "sequence", "%s: the condition holds %s" % (e.where, show(s)))
        return
    if call(s, "Iterator::chain"):
        a = s.a[1]
        one = a.a[1] if a.op == "call" and a.a[0].endswith("once") else a.a[3] if a.op == "agg" and a.a[0] == "array" and len(a.a) == 4 else None
        rep.check(one is not None and first(one), "rule", "sequence-first", "%s: the condition begins with %s" % (e.where, show(a)))
        rep.check(mid(s.a[2]) and adt.ordered(s.a[2]), "rule", "sequence-ops", "%s: what is added to the condition is %s" % (e.where, show(s.a[2])))
        return
    fixed = list(s.a[3:]) if s.op == "agg" and s.a[0] == "array" else []
    rest = [x for x in g.events("call") if x.args and x.args[0] is s and (x.name in q.PUSH or x.name in q.EXTEND) and g.nodes[x.node.id].facts]
    other = [x for x in g.events("call") if x.args and x.args[0] is s and x not in rest and x.name in ("Vec::insert", "slice::reverse", "Vec::pop", "Vec::truncate", "Vec::remove", "slice::sort", "slice::swap")]
    rep.check(not other, "rule", "sequence-other", "%s: the condition is also changed by %s" % (e.where, [x.name for x in other]))
    heads = [x for x in rest if not fixed and x.name in q.PUSH and first(x.args[1])]
    rep.check(len(fixed) == 1 and first(fixed[0]) or not fixed and len(heads) == 1, "rule", "sequence-first", "%s: the condition begins with %s" % (e.where, [show(x) for x in fixed]))
    more = [x for x in rest if x not in heads]
    if not rep.check(len(more) == 1, "rule", "sequence-ops", "%s: the ops are added to the condition in %d places" % (e.where, len(more))):
        return
    x = more[0]
    if x.name in q.EXTEND:
        rep.check(mid(x.args[1]) and adt.ordered(x.args[1]), "rule", "sequence-ops", "%s: what is added to the condition is %s" % (x.where, show(x.args[1])))
    else:
        c = loops.element_of(x.args[1])
        l = rank.in_loop(g, x.node)
        nx = [n.args[0] for n in l.nexts] if l is not None else []
        good = c is not None and (mid(c) or c is ev and any(idx_range(g, y, ev) for y in nx)) and all(adt.ordered(y) and (loops.whole(y) is not None or mid(y)) for y in nx)
        rep.check(good, "rule", "sequence-ops", "%s: what is added to the condition is %s" % (x.where, show(x.args[1])))
        if l is not None:
            rep.check(not adt.skips(g, l.head, l.body, x.node.id, {l.head}), "rule", "sequence-all", "%s: not every op is added to the condition" % x.where)


def idx_range(g, c, ev):
    if c.op != "agg":
        return False
    fs = dict(zip(c.a[2], c.a[3:]))
    m = adt.linear(g, fs["end"])
    return loops.ival(fs["start"]) == 1 and m.get(1) == -1 and len(m) == 2 and any(isinstance(k, V) and loops.len_of(k) is ev for k in m)


# ---------------------------------------------------------------- sampling
def step(rep):
    g = rep.graph(T + "step", atoms=[CALLABLE, OPS, BUILD, MINIDX, DEC, BYNAME, STAMP, OCC] + STR)
    slf, nar = adt.param(g, 1), adt.param(g, 2)
    tr = g.field(slf, "trace")
    rets = {r.id for r in g.root.retnodes}
    # goals fulfilled by the newest event
    oc = [e for e in g.events("call") if e.name == OCC and g.nodes[e.node.id].facts]
    if rep.check(bool(oc), "fulfilled", "call", "goals are not told about the newest event"):
        for e in oc:
            x = e.args[1]
            y = x.a[0] if is_field(x, "name") else None
            src = [y]
            if y is not None and loops.element_of(y) is not None and loops.element_of(y) is not tr:
                src = [v for k, v, _ in q.contents(g, loops.element_of(y))]
            lst = lambda v: v is not None and (c15.last_of(g, v, tr) or is_opt(g, v, tr, "slice::last") or v.op == "idx" and call(v.a[0], T + "ret_last_events"))
            rep.check(bool(src) and all(lst(v) for v in src), "fulfilled", "newest", "%s: the event goals are told about is %s" % (e.where, show(x)))
        emp = lambda d: known(g, d, lambda v, p: (lambda c: c is not None and not c[2] and loops.len_of(c[0]) is tr and loops.ival(c[1]) == 0)(rank.less(v, p)) or v.op == "bin" and v.a[0] == "Eq" and p and any(loops.len_of(k) is tr for k in kids(v)) and any(loops.ival(k) == 0 for k in kids(v)) or best.is_none(v, p, lambda o: call(o, "slice::last")))
        body = set()
        for l in loops.loops(g):
            if any(e.node.id in l.body for e in oc):
                body |= {l.head}
        for u, x, ds in rank.avoid(g, 0, {e.node.id for e in oc} | body, rets, panics=False):
            for d in ds:
                rep.check(emp(d), "fulfilled", "always", "goals may not be told about the newest event [%s]" % q.fmt(d))
    # what is stored
    sends = [e for e in g.events("call") if e.name.endswith("Sender::send") and g.nodes[e.node.id].facts]
    if not rep.check(bool(sends), "learn", "send", "nothing is ever learned"):
        return
    rep.floor("learn", len(sends), 1, "places where a rule is handed over to be stored")
    builds = []
    for e in sends:
        m = e.args[1]
        if not rep.check(m.op == "agg" and len(m.a) == 5, "learn", "message", "%s: what is handed over is %s" % (e.where, show(m))):
            continue
        s, t = m.a[3], m.a[4]
        rep.check(t is g.field(nar, "t"), "learn", "time", "%s: the time handed over is %s" % (e.where, show(t)))
        if not rep.check(s.op == "agg" and "expDt" in s.a[2], "learn", "sentence", "%s: what is handed over is %s" % (e.where, show(s))):
            continue
        fs = dict(zip(s.a[2], s.a[3:]))
        rep.check("JUGEMENT" in show(fs["punct"]), "learn", "punct", "%s: it is no judgement but %s" % (e.where, show(fs["punct"])))
        B = payload(fs["term"])
        if not rep.check(B is not None and call(B, BUILD), "learn", "term", "%s: the term learned is %s" % (e.where, show(fs["term"]))):
            continue
        names = B.a[2]
        sel = names
        while sel.op == "mapped" and is_field(sel.a[1], "name"):
            sel = sel.a[0]
        rep.check(names.op == "mapped" and is_field(names.a[1], "name") and adt.ordered(names), "learn", "names", "%s: the rule is made of %s" % (e.where, show(names)))
        builds.append((e, B, sel))
        # stamp
        st = fs["stamp"]
        ok = call(st, STAMP) and st.a[1].op == "mapped" and is_field(st.a[1].a[1], "evi") and loops.whole(st.a[1]) is loops.whole(sel)
        rep.check(ok, "learn", "stamp", "%s: the evidence base is %s, not that of the events selected" % (e.where, show(st)))
        # interval
        xd = fs["expDt"]
        x = xd.a[3] if xd.op == "agg" and xd.a[1] == "Some" else None
        if rep.check(x is not None and call(x, MINIDX) and is_field(x.a[2], "expIntervalsTable"), "learn", "interval", "%s: the interval is %s" % (e.where, show(xd))):
            m = adt.linear(g, x.a[1])
            pos = {}
            for k, c in m.items():
                if isinstance(k, V) and is_field(k, "occT") and loops.element_of(k.a[0]) is not None:
                    pos[from_end(g, k.a[0], sel)] = c
            rep.check(pos == {1: 1, 2: -1} and len(m) == 2, "learn", "dt", "%s: the time between is %s" % (e.where, show(x.a[1])))
        # counts
        ev = fs["evi"]
        c = ev.a[3] if ev.op == "agg" and ev.a[1] == "Some" else None
        if rep.check(c is not None and c.op == "agg" and c.a[1] == "CNT", "learn", "evidence", "%s: the evidence is %s" % (e.where, show(ev))):
            f2 = dict(zip(c.a[2], c.a[3:]))
            rep.check(f2["pos"] is f2["cnt"], "learn", "positive", "%s: the evidence is %s of %s" % (e.where, show(f2["pos"]), show(f2["cnt"])))
            for pr, w in best.leaves(g, f2["cnt"]):
                w = rank.uncast(w)
                n = loops.ival(w)
                if n is None:
                    opn = [y for y in q.subs(w) if call(y, BYNAME)]
                    rep.check(call(w, P + "Op::ret_evi_cnt") and len(opn) == 1 and op_name(g, opn[0].a[2], B), "learn", "count", "%s: the count is %s" % (e.where, show(w)))
                else:
                    rep.check(n > 0, "learn", "count-positive", "%s: the count is %d" % (e.where, n))
    # whenever it can
    for e, B, sel in builds:
        be = [x for x in g.events("call") if x.val is B and x.name == BUILD]
        for x in be:
            l = rank.in_loop(g, x.node)
            stops = {l.head} if l is not None else rets
            for u, y, ds in rank.avoid(g, x.node.id, {s.node.id for s in sends}, stops, l.body if l is not None else None, panics=False):
                for d in ds:
                    rep.check(rank.known(g, d, none(lambda o: o is B)), "learn", "lost", "%s: a rule that was built may not be handed over [%s]" % (x.where, q.fmt(d)))
            if l is not None:
                sampled(rep, g, l, x, tr)
        selection(rep, g, e, sel, tr, nar)


def op_name(g, v, B):
    """v is the name of an op of the rule built"""
    x = c15.decoded(v, "1")
    return x is not None and any(y is B for y in q.subs(x)) and x.op in ("idx", "cidx") and (loops.ival(x.a[1]) if x.op == "idx" else x.a[1]) == 1


def from_end(g, x, sel):
    """position of x counted from the end of sel (1 = last)"""
    c = loops.element_of(x)
    if c is not sel and loops.whole(c) is not loops.whole(sel):
        if not (x.op == "idx" and c.op == "mapped"):
            return None
    if x.op == "cidx":
        return x.a[1] if x.a[2] else None
    if x.op != "idx":
        return None
    m = adt.linear(g, x.a[1])
    if any(isinstance(k, V) and loops.len_of(k) is not None and m[k] == 1 for k in m) and len(m) == 2:
        return -m.get(1, 0)
    return None


def sampled(rep, g, l, x, tr):
    """samples are taken cfg__perceptionSamplesPerStep times, whenever there is an op that is not the first event"""
    def why_not(d):
        def f(v, p):
            c = rank.less(v, p)
            if c is not None and not c[2] and loops.ival(c[1]) == 0 and (loops.len_of(c[0]) is not None or any(call(y, "Iterator::min") for y in q.subs(c[0]))):
                return True
            if v.op == "bin" and v.a[0] == "Eq" and p and any(loops.ival(k) == 0 for k in kids(v)) and any(loops.len_of(k) is not None or any(call(y, "Iterator::min") for y in q.subs(k)) for k in kids(v)):
                return True
            return best.is_none(v, p, lambda o: call(o, "Iterator::min"))
        return known(g, d, f)
    for nx in l.nexts:
        c = nx.args[0]
        if c.op == "agg" and "end" in c.a[2]:
            fs = dict(zip(c.a[2], c.a[3:]))
            rep.check(any(is_field(y, "cfg__perceptionSamplesPerStep") for y in q.subs(fs["end"])) and loops.ival(fs["start"]) == 0, "sample", "times", "samples are taken for %s" % show(c))
    for u, y, ds in rank.avoid(g, l.head, {x.node.id}, {l.head}, l.body, panics=False):
        for d in ds:
            rep.check(l.exhausted(d) or why_not(d), "sample", "skip", "a sample may not be tried [%s]" % q.fmt(d))
    rets = {r.id for r in g.root.retnodes}
    for u, y, ds in rank.avoid(g, 0, {l.head}, rets, panics=False):
        for d in ds:
            few = known(g, d, lambda v, p: (lambda c: c is not None and loops.len_of(c[0]) is tr and loops.ival(c[1]) is not None and loops.ival(c[1]) - (0 if not c[2] else 1) <= 2)(rank.less(v, p)))
            rep.check(few, "sample", "few-events", "with three events or more samples may not be taken [%s]" % q.fmt(d))
    for u, y, d in l.early():
        if u in l.own and g.nodes[y].facts and rank.returns(g, y):
            rep.check(why_not(d), "sample", "early", "sampling may stop before the last one [%s]" % q.fmt(d))


def selection(rep, g, e, sel, tr, nar):
    """sel: elements of the trace at sorted positions"""
    if not rep.check(sel.op == "mapped" and sel.a[1].op == "idx" and sel.a[1].a[0] is tr, "select", "trace", "%s: the events selected are %s" % (e.where, show(sel))):
        return
    idxs = loops.whole(sel.a[0])
    pos = sel.a[1].a[1]
    if not rep.check(idxs is not None and adt.ordered(sel) and loops.element_of(rank.uncast(pos)) is idxs, "select", "positions", "%s: the events selected are those at %s" % (e.where, show(sel.a[0]))):
        return
    base = idxs
    srt = [x for x in g.events("call") if x.name in ("slice::sort", "slice::sort_unstable") and x.args[0] is base]
    use = [x for x in g.events("call") if x.val is sel]
    good = bool(srt) and bool(use) and not adt.skips(g, 0, None, srt[0].node.id, {use[0].node.id})
    if good:
        for x in g.events("call"):
            if x.args and x.args[0] is base and (x.name in q.PUSH or x.name in q.EXTEND or x.name in ("slice::swap", "slice::reverse", "Vec::insert")):
                l = rank.in_loop(g, srt[0].node)
                good &= not adt.skips(g, srt[0].node.id, l.body if l else None, l.head if l else None, {x.node.id})
    for x in g.events("call"):
        if x.name in ("slice::sort_by", "slice::sort_by_key", "slice::sort_unstable_by") and x.args[0] is base:
            good = ascending(g, x)
    rep.check(good, "select", "sorted", "%s: the events selected are not in the order in which they happened" % e.where)
    lasts, firsts, ops = 0, 0, 0
    for kind, v, x in q.contents(g, base):
        for w in [y for _, y in rank.settings(g, v)] if v.op == "phi" else [v]:
            w = rank.uncast(w)
            if call(w, "Rng::gen_range"):
                fs = dict(zip(w.a[2].a[2], w.a[2].a[3:])) if w.a[2].op == "agg" else {}
                end = fs.get("end")
                mn = payload(end) if end is not None else None
                if mn is not None and call(mn, "Iterator::min"):
                    firsts += 1
                    rep.check(loops.ival(fs["start"]) == 0, "select", "first-range", "%s: the first event is drawn from %s" % (e.where, show(w.a[2])))
                    continue
                rep.bad("select", "first", "%s: an event at a position in %s may be selected" % (e.where, show(w.a[2])))
                continue
            if any(call(y, OPS) for y in q.subs(w)) and w.op in ("idx", "elem"):
                ops += 1
                rep.check(loops.element_of(w) is not None and call(loops.element_of(w), OPS) and loops.element_of(w).a[2] is tr, "select", "op", "%s: the op selected is at %s" % (e.where, show(w)))
                continue
            m = adt.linear(g, w)
            k = -m.get(1, 0) if len(m) == 2 and any(isinstance(z, V) and loops.len_of(z) is tr for z in m) else None
            if rep.check(k in (1, 2), "select", "which", "%s: the event at %s may be selected" % (e.where, show(w))):
                lasts += 1
                if k == 2:
                    prev(rep, g, e, v, w, tr)
    rep.floor("select", firsts, 1, "ways to select the first event")
    rep.floor("select", ops, 1, "ways to select an op")
    rep.floor("select", lasts, 1, "ways to select the last event")
    # no op twice
    for kind, v, x in q.contents(g, base):
        w = rank.uncast(v)
        if x is not None and any(call(y, OPS) for y in q.subs(w)) and w.op in ("idx", "elem"):
            push = [z for z in g.events("call") if z.name in q.PUSH and rank.uncast(z.args[1]) is w]
            for z in push:
                how_many(rep, g, z)
                for d in q._fs(g, g.nodes[z.node.id].facts):
                    rep.check(known(g, d, lambda y, p: not p and y.op == "call" and y.a[0] == "slice::contains" and rank.uncast(y.a[2]) is w or not p and y.op == "any"), "select", "op-once", "%s: an op may be selected twice [%s]" % (z.where, q.fmt(d)))


def ascending(g, x):
    return False


def prev(rep, g, e, v, w, tr):
    """the event before the last one is selected only if it is after all ops selected"""
    for pr, y in rank.settings(g, v):
        if rank.uncast(y) is not w:
            continue
        for d in q._fs(g, g.OUT.get(pr) or []):
            rep.check(known(g, d, lambda z, p: (lambda c: c is not None and c[2] and c[1] is w and any(call(k, "Iterator::max") for k in q.subs(c[0])))(rank.less(z, p))), "select", "previous", "%s: the event before the last may be selected though it is not after all ops [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, lambda z, p: not p and call(z, CALLABLE) and before_last(g, z, tr, w)), "select", "previous-op", "%s: the event before the last may be selected though it is an op [%s]" % (e.where, q.fmt(d)))


def before_last(g, z, tr, w):
    """the callable op tested is the one at w, if it can be told"""
    at = [y for y in q.subs(z) if y.op == "idx" and y.a[0] is tr]
    at2 = [y for y in q.subs(z) if y.op == "cidx" and y.a[0] is tr]
    if at:
        return any(adt.linear(g, rank.uncast(y.a[1])) == adt.linear(g, w) for y in at)
    return not at2 or any(y.a[1] == 2 and y.a[2] for y in at2)


def how_many(rep, g, push):
    """the selection of different ops ends: as many are selected as there are at most, and one at least"""
    l = rank.in_loop(g, push.node)
    if l is None or l.nexts:
        return
    S = push.args[0]
    for u, y, d in l.early():
        for v, p in d:
            if not (v.op == "bin" and v.a[0] in ("Eq", "Le", "Lt", "Ne") and any(loops.len_of(k) is S for k in kids(v))):
                continue
            for k in kids(v):
                if loops.len_of(k) is S:
                    continue
                for w in best.leaves(g, k):
                    w = w[1] if isinstance(w, tuple) else w
                    n = loops.ival(w)
                    if n is not None:
                        rep.check(n == 1 or n == 0 and v.a[0] == "Lt", "select", "how-many", "%s: %d ops are selected, though there may be less of them, or none is" % (push.where, n))
                    elif rank.uncast(w).op == "field":
                        rep.bad("select", "how-many", "%s: %s ops are selected, though there may be less of them" % (push.where, show(w)))
                    elif w.op == "call" and w.a[0].split("::")[-1] in ("min", "max", "clamp"):
                        few = any(x.op == "call" and x.a[0] == OPS for a in kids(w) if loops.len_of(a) is not None for x in [loops.len_of(a)])
                        rep.check(w.a[0].split("::")[-1] == "min" and few, "select", "how-many", "%s: %s ops are selected, though there may be less of them" % (push.where, show(w)))


def is_clock(g, e, nar):
    t = e.extra if isinstance(e.extra, V) else e.args[0] if e.args else None
    return t is g.field(nar, "t")


def clock(rep):
    """each step advances the time by one, nothing else changes it"""
    f = P + "narStep1"
    g = rep.graph(f, atoms=c15.ATOMS)
    nar = adt.param(g, 1)
    ws = [e for e in g.events() if e.kind in ("write", "lwrite") and e.node.facts and is_clock(g, e, nar)]
    if rep.check(bool(ws), "clock", "advance", "%s: the time isn't advanced" % f):
        for e in ws:
            v = e.val if e.val is not None else e.args[-1]
            m = adt.linear(g, v)
            rep.check(m == {g.field(nar, "t"): 1, 1: 1}, "clock", "one", "%s: the time becomes %s, not the next one" % (e.where, show(v)))
            rep.check(not any(e.node.id in l.body for l in loops.loops(g)), "clock", "once", "%s: the time may be advanced more than once" % e.where)
        x = walk(g, g.root.meta[0].id, {e.node.id for e in ws}, {n.id for n in g.root.retnodes})
        rep.check(x is None, "clock", "always", "%s:%s: a step may end without the time being advanced" % (f, x))
        a = {e.node.id for e in ws}
        for e in ws:
            rep.check(walk(g, e.node.id, set(), a) is None, "clock", "once", "%s: the time may be advanced more than once" % e.where)
    users = {e.inst.fn.path for e in ws}
    for fn in rep.c.fns.values():
        if fn.path in users:
            continue
        for b in fn.blocks:
            for st in b["s"] if not b.get("c") else ():
                if st["k"] == "=" and st["pl"]["p"]:
                    ps = [x for x in st["pl"]["p"] if isinstance(x, dict)]
                    own = ps[-2].get("t", "") if len(ps) > 1 else fn.locals[st["pl"]["l"]]["t"]
                    if ps and ps[-1].get("f") == "t" and own.rstrip(">").endswith("NarProc::ProcNar"):
                        rep.bad("clock", fn.path, "%s:%s: the time of the procedural reasoner is changed by %s" % (fn.file, st.get("line"), fn.path))


def check(rep):
    clock(rep)
    trace(rep)
    callable_op(rep)
    op_positions(rep)
    min_index(rep)
    table(rep)
    build(rep)
    step(rep)
