"""C28: operators and environments have the effects they state."""
import sympy as sp
import adt
import arith
import best
import loops
import q
import rank
from c13 import is_field
from c15 import call, payload
from c22 import fnum
from c27 import passes, best_param
from sym import equal, NotNumeric
from vg import show, kids, V

LEVEL = "other"
RULE = ("Operators: what each operator writes is enumerated over all paths of its call: nothing for no-operations, the bat's direction, the move, for nlpRel0 exactly one task with the rewritten relation if there are two arguments and a declarative memory. "
        "Environments: counters, moves, positions and events are written under the facts of the rules of the game only, and on every path on which these hold; each round of an environment passes step 0, one event, step 1 with the declarative memory. "
        "Evaluation: the cycle returned is the one after which an answer was seen, nothing is returned only after all cycles. Attention: the first n items.")
ASSUME = ["the state shared between environment and operators is changed by these only"]
S = sp.Symbol
QUIET = ("Term::convTermToStr",)
STEP0, STEP1, INPUT, EVENT = "NarProc::narStep0", "NarProc::narStep1", "Nar::inputN", "<NarProc::TraceDefault as NarProc::Trace>::event_happened"
IMPURE = ("Vec::", "VecDeque::", "HashMap::", "String::push", "Option::take", "Option::replace", "Option::insert", "Cell::", "RefCell::replace", "RefCell::take", "mem::", "Atomic::")


def impl(rep, ty, fn):
    n = "<%s as NarProc::Op>::%s" % (ty, fn)
    return n if n in rep.c.fns else None


def stores(g):
    """[(place, value, event)]: everything written that isn't local"""
    out = []
    for t, v, e in q.writes(g):
        if g.nodes[e.node.id].facts and best_param(best.root(t)).op == "param":
            out.append((t, v, e))
    for e in g.events("lwrite"):
        if g.nodes[e.node.id].facts and isinstance(e.extra, V) and best_param(best.root(e.extra)).op == "param":
            if not any(x is e for _, _, x in out):
                out.append((e.extra, e.val, e))
    for e in g.events("call"):
        if not g.nodes[e.node.id].facts or not e.args or e.args[0] is None:
            continue
        if e.name in ("RefCell::replace", "Cell::set", "mem::replace", "Option::replace", "Option::insert", "Cell::replace"):
            out.append((e.args[0], e.args[1], e))
        elif e.name.startswith(IMPURE) and e.name not in adt.READERS and best_param(best.root(e.args[0])).op == "param":
            out.append((e.args[0], None, e))
        elif e.name.split("::")[0] in ("NarProc", "NarWorkingCycle", "NarGoalSystem", "NarMem", "Nar", "EnvPong3") and any(best_param(best.root(a)).op == "param" for a in e.args if a is not None):
            out.append((e.args[0], None, e))
    return out


def rets(g):
    return {r.id for r in g.root.retnodes}


def operators(rep):
    n = 0
    for ty in ("OpLib::OpNop", "ProcChaosEntry::OpNop"):
        f = impl(rep, ty, "call")
        if not rep.check(f is not None, "operator", ty, "%s isn't an operator" % ty):
            continue
        g = rep.graph(f, atoms=QUIET)
        n += 1
        ws = stores(g)
        rep.check(not ws, "operator", ty, "%s: a no-operation changes %s" % (f, ", ".join("%s at %s" % (show(t), e.where) for t, v, e in ws)))
    for ty, dst, src, wrap in (("Reasoner1Entry::OpPong", ("env", "batVX"), "opDir", False), ("ProcTicTacToe::OpCheckers", ("sharedMove",), "opMove", True)):
        f = impl(rep, ty, "call")
        if not rep.check(f is not None, "operator", ty, "%s isn't an operator" % ty):
            continue
        g = rep.graph(f, atoms=QUIET)
        me = adt.param(g, 1)
        want = arith.proj(g, me, dst)
        val = g.field(me, src)
        ok = set()
        for t, v, e in stores(g):
            n += 1
            good = t is want and v is not None and (v.op == "agg" and v.a[1] == "Some" and v.a[3] is val if wrap else v is val)
            rep.check(good, "operator", ty, "%s: %s becomes %s" % (e.where, show(t), show(v) if v is not None else e.name))
            ok.add(e.node.id)
        rep.check(bool(ok) and not passes(g, None, ok, rets(g)), "operator", ty + ":always", "%s: the operator may have no effect" % f)
    for ty, want in (("OpLib::OpNop", True), ("OpLib::Op_nal9__exec_and_inject", False), ("OpLib::Op__nlp_rel_0", False), ("Reasoner1Entry::OpPong", True), ("ProcTicTacToe::OpCheckers", True), ("ProcChaosEntry::OpNop", True)):
        f = impl(rep, ty, "isBabbleable")
        if f:
            for e in rep.graph(f).events("return"):
                n += 1
                rep.check(e.val.op == "const" and bool(e.val.a[1]) == want, "babble", ty, "%s: %s" % (f, "it isn't babbled" if want else "it may be babbled"))
    for ty, field, text in (("OpLib::OpNop", "name", None), ("ProcChaosEntry::OpNop", "selfName", None), ("Reasoner1Entry::OpPong", "selfName", None), ("ProcTicTacToe::OpCheckers", "selfName", None), ("OpLib::Op_nal9__exec_and_inject", None, "^nal9_exeAndInject"), ("OpLib::Op__nlp_rel_0", None, "^nlpRel0")):
        f = impl(rep, ty, "retName")
        if f:
            g = rep.graph(f)
            for e in g.events("return"):
                n += 1
                v = e.val
                rep.check(v is g.field(adt.param(g, 1), field) if field else v.op == "const" and str(v.a[1]).strip("'\"") == text, "name", ty, "%s: the name is %s" % (f, show(v)))
    rep.floor("operator", n, 12, "effects, names and settings of operators")


# ---------------------------------------------------------------- relations
def relation(rep):
    ADD, NEWS, NEWST = "NarWorkingCycle::memAddTask", "NarSentence::newEternalSentenceByTv", "NarStamp::newStamp"
    f = impl(rep, "OpLib::Op__nlp_rel_0", "call")
    if not rep.check(f is not None, "relation", "op", "there is no operator for relations"):
        return
    g = rep.graph(f, atoms=["Term::convTermToStr", ADD, NEWS, NEWST, "Term::checkEqTerm"])
    nar, mem, args = (adt.param(g, i) for i in (2, 3, 4))
    two = lambda d, want: best.has(d, lambda v, p: v.op == "bin" and v.a[0] == "Eq" and p == want and any(loops.len_of(k) is args for k in kids(v)) and any(loops.ival(k) == 2 for k in kids(v))) or not want and best.has(d, lambda v, p: (lambda c: c and any(loops.len_of(x) is args for x in c[:2]))(rank.less(v, p)))
    has = lambda d, want: best.has(d, lambda v, p: (best.is_some if want else best.is_none)(v, p, lambda x: x is mem))
    es = [e for e in g.events("call") if e.name == ADD and g.nodes[e.node.id].facts]
    if not rep.check(bool(es), "relation", "added", "%s: the relation isn't added to the memory" % f):
        return
    ids = {e.node.id for e in es}
    for e in es:
        for d in g.facts_at(e.node):
            rep.check(rank.known(g, d, lambda z: two(z, True)), "relation", "arguments", "%s: the relation is added though there may not be two arguments [%s]" % (e.where, q.fmt(d)))
        rep.check(not passes(g, e.node.id, set(), ids), "relation", "once", "%s: the relation is added more than once" % e.where)
        s = e.args[1]
        rep.check(is_field(e.args[0], "shared") and payload(e.args[0].a[0]) is mem and e.args[2].op == "const" and bool(e.args[2].a[1]) and e.args[-1] is g.field(nar, "t"), "relation", "where", "%s: the relation is added to %s as of %s" % (e.where, show(e.args[0]), show(e.args[-1])))
        ok = call(s, NEWS) and s.a[2].op == "agg" and s.a[2].a[1] == "JUGEMENT"
        tv = s.a[3] if ok else None
        ok = ok and tv.op == "agg" and [fnum(x) for x in tv.a[3:]] == [1.0, 0.9]
        if not rep.check(ok, "relation", "sentence", "%s: the sentence added is %s" % (e.where, show(s))):
            continue
        ARG = loops_elem(args, 1)
        heads = {l.head for l in loops.loops(g)}
        k = 0
        for pr, t in best.leaves(g, s.a[1]):
            for d in (g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or [])):
                for t2, d2 in deep(g, t, d):
                    k += 1
                    rep.check(rewritten(g, t2, ARG, d2), "relation", "term", "%s: the relation added is %s [%s]" % (e.where, show(t2), q.fmt(d2)))
        rep.floor("relation", k, 3, "terms of relations")
    for u, x, ds in rank.avoid(g, 0, ids, rets(g), panics=False):
        for d in ds:
            rep.check(rank.known(g, d, lambda z: two(z, False) or has(z, False)), "relation", "always", "%s: the relation isn't added [%s]" % (f, q.fmt(d)))


def loops_elem(coll, i):
    return lambda v: v.op in ("idx", "cidx") and v.a[0] is coll and (loops.ival(v.a[1]) if isinstance(v.a[1], V) else v.a[1]) == i


def deep(g, v, d):
    """alternatives of joins inside of v"""
    ps = [x for x in q.subs(v) if x.op == "phi" and x.id in g.phis]
    if not ps:
        return [(v, d)]
    out = []
    p = ps[0]
    for pr, w in best.leaves(g, p):
        for d2 in q._fs(g, g.OUT.get(pr) or []) if pr is not None else [d]:
            if q.compatible(d, d2):
                out.append((q.subst(g, v, p, w), q.merge(d, d2) if hasattr(q, "merge") else list(d) + list(d2)))
    return out


def spread(g, v, depth=3):
    """v with joins inside replaced by what is joined"""
    ps = [x for x in q.subs(v) if x.op == "phi" and x.id in g.phis]
    if not ps or not depth:
        return [v]
    return [y for _, w in best.leaves(g, ps[0]) for y in spread(g, q.subst(g, v, ps[0], w), depth - 1)]


def opposite(g, v):
    """v is a constant which is the opposite of the player"""
    ls = best.leaves(g, v)
    return len(ls) > 1 and all(pr is not None and w.op == "const" and all(best.has(d, lambda x, p: is_field(x, "player") and p != bool(w.a[1])) for d in q._fs(g, g.OUT.get(pr) or [])) for pr, w in ls)


def rewritten(g, t, isarg, d):
    """the argument, with (a * (x, and, y)) --> p as (a * (x & y)) --> p and only that"""
    arr = arr_of
    args = [x for x in q.subs(t) if isarg(x)]
    if not args:
        return False
    A = args[0]
    conj = g_and(g, A, d)
    if t is A:
        return conj is not True
    if not (t.op == "agg" and t.a[1] == "Stmt"):
        return False
    cop, sub, pred = t.a[3:6]
    if not ((cop.op == "agg" and cop.a[1] == "INH" or cop is g.vfield(A, "Stmt", "0")) and pred is g.vfield(A, "Stmt", "2")):
        return False
    s0 = g.vfield(A, "Stmt", "1")
    if sub is s0:
        return conj is not True
    ps = g.vfield(s0, "Prod", "0")
    es = arr(sub.a[3]) if sub.op == "agg" and sub.a[1] == "Prod" else None
    size = lambda c, k: best.has(d, lambda v, p: v.op == "bin" and v.a[0] == "Eq" and p and any(loops.len_of(x) is c for x in kids(v)) and any(loops.ival(x) == k for x in kids(v)))
    if not es or len(es) != 2 or not loops_elem(ps, 0)(es[0]) or not size(ps, 2):
        return False
    r = es[1]
    if loops_elem(ps, 1)(r):
        return conj is not True
    R = [x for x in q.subs(r) if loops_elem(ps, 1)(x)]
    if not R or r.op != "agg" or r.a[1] != "ExtInt":
        return False
    sq = g.vfield(R[0], "Seq", "0")
    xs = arr(r.a[3])
    return bool(xs) and len(xs) == 2 and loops_elem(sq, 0)(xs[0]) and loops_elem(sq, 2)(xs[1]) and conj is True and size(sq, 3)


def arr_of(v):
    return list(v.a[3:]) if v.op == "agg" and str(v.a[0]) == "array" else [x for x in v.a if isinstance(x, V)] if v.op == "array" else None


def g_and(g, A, d):
    """True/False: the facts say that the second element of the product is / isn't (x, and, y); None: unknown"""
    s0 = g.vfield(A, "Stmt", "1")
    for v, p in d:
        if call(v, "Term::checkEqTerm") or v.op == "bin" and v.a[0] == "Eq":
            ks = v.a[1:3]
            for a, b in (ks, ks[::-1]):
                if isinstance(b, V) and any("and" == str(x.a[1]).strip("'\"") for x in q.subs(b) if x.op == "const") and a.op in ("idx", "cidx") and (loops.ival(a.a[1]) if isinstance(a.a[1], V) else a.a[1]) == 1 and any(y is s0 for y in q.subs(a)):
                    return p
    return None


# ---------------------------------------------------------------- pong
def pong(rep):
    f = "EnvPong3::simStep"
    g = rep.graph(f)
    env = adt.param(g, 1)
    nm = arith.Names(g, {1: "e"})
    F = lambda n: g.field(env, n)
    sym = lambda n: S("e." + n)

    def num(v):
        try:
            return sp.expand(nm.s(v))
        except (NotNumeric, TypeError):
            return None

    def lt(d, lo, hi):
        """the facts say lo <= hi or lo < hi"""
        for v, p in d:
            c = rank.less(v, p)
            if c:
                a, b = num(c[0]), num(c[1])
                if a is not None and b is not None and equal(a - b, lo - hi) and a.has(sp.Abs) == lo.has(sp.Abs) and (not lo.has(sp.Abs) or a.has(sp.Abs)):
                    return "<" if c[2] else "<="
        return None
    eqz = lambda d, want: best.has(d, lambda v, p: v.op == "bin" and v.a[0] == "Eq" and p == want and any(k is F("ballY") for k in kids(v)) and any(loops.ival(k) == 0 for k in kids(v)))
    off = sp.Abs(sym("ballX") - sym("batX"))
    ws = [(t, v, e) for t, v, e in q.writes(g) if g.nodes[e.node.id].facts and t.op == "field" and t.a[0] is env]
    by = {}
    for t, v, e in ws:
        by.setdefault(t.a[1], []).append((v, e))
    at = lambda n: {e.node.id for v, e in by.get(n, [])}
    for n, inside in (("hits", True), ("misses", False)):
        if not rep.check(n in by, "pong", n, "%s: %s aren't counted" % (f, n)):
            continue
        for v, e in by[n]:
            rep.check(adt.linear(g, v) == {F(n): 1, 1: 1}, "pong", n, "%s: %s become %s" % (e.where, n, show(v)))
            rep.check(not passes(g, e.node.id, set(), at("hits") | at("misses")), "pong", n + ":once", "%s: hits and misses are counted more than once" % e.where)
            for d in g.facts_at(e.node):
                rep.check(eqz(d, True), "pong", n + ":floor", "%s: %s are counted though the ball isn't at the bottom [%s]" % (e.where, n, q.fmt(d)))
                good = lt(d, off, sym("batWidth")) == "<=" if inside else lt(d, sym("batWidth"), off) == "<"
                rep.check(good, "pong", n + ":bat", "%s: %s are counted [%s]" % (e.where, n, q.fmt(d)))
    for u, x, ds in rank.avoid(g, 0, at("hits") | at("misses"), rets(g), panics=False):
        for d in ds:
            rep.check(rank.known(g, d, lambda z: eqz(z, False)), "pong", "counted", "%s: neither a hit nor a miss is counted [%s]" % (f, q.fmt(d)))
    # movement
    for v, e in by.get("t", []):
        rep.check(adt.linear(g, v) == {F("t"): 1, 1: 1}, "pong", "time", "%s: the time becomes %s" % (e.where, show(v)))
    rep.check(bool(by.get("t")) and not passes(g, None, at("t"), rets(g)) and not any(passes(g, e.node.id, set(), at("t")) for v, e in by["t"]), "pong", "time", "%s: the time isn't advanced by one" % f)
    spawn = {e.node.id for v, e in by.get("ballX", []) + by.get("ballY", []) if any(call(x, "Rng::gen_range") for x in q.subs(v))}
    rng = lambda v: any(call(x, "Rng::gen_range") for x in q.subs(v))
    for n, forms in (("ballX", ({F("ballX"): 1, F("vX"): 1}, "mul")), ("ballY", ({F("ballY"): 1, F("vY"): 1},))):
        mv = [(v, e) for v, e in by.get(n, []) if not rng(v)]
        rep.check(bool(mv), "pong", n, "%s: the ball doesn't move" % f)
        for v, e in mv:
            s = [num(x) for x in spread(g, v)]
            w = [sym(n) + sym("vX"), sym(n) + sym("vX") * sym("mulVX"), sym(n) + sym("vX") * (1 + sym("mulVX"))] if n == "ballX" else [sym(n) + sym("vY")]
            if not rep.check(all(y is not None and any(equal(y, x) for x in w) for y in s), "pong", n, "%s: %s becomes %s" % (e.where, n, show(v))):
                continue
            if n == "ballY":
                rep.check(not passes(g, None, {e.node.id}, rets(g)) or len(mv) > 1, "pong", n + ":always", "%s: the ball may not move" % e.where)
        for v, e in by.get(n, []):
            if rng(v):
                hi = [x for x in q.subs(v) if call(x, "Rng::gen_range")]
                end = hi[0].a[2].a[-1] if hi[0].a[2].op == "agg" else None
                ok = end is not None and (end is F("szX") and v is hi[0] if n == "ballX" else num(v) is not None and equal(num(end), S("(e.szY//2)")))
                rep.check(ok, "pong", n + ":respawn", "%s: a new ball is at %s = %s" % (e.where, n, show(v)))
    for n, pos, size in (("vX", "ballX", "szX"), ("vY", "ballY", "szY")):
        for v, e in by.get(n, []):
            if best.root(v).op == "phi" or passes(g, None, {e.node.id}, spawn | {-1}) is False and spawn:
                continue
            k = loops.ival(v)
            if k is None:
                continue
            near = any(passes(g, s, set(), {e.node.id}) for s in spawn)
            if near:
                continue
            for d in g.facts_at(e.node):
                good = lt(d, sym(pos), sp.Integer(0)) == "<=" if k == 1 else k == -1 and lt(d, sym(size) - 1, sym(pos)) == "<="
                rep.check(good, "pong", n, "%s: the ball turns to %s [%s]" % (e.where, k, q.fmt(d)))
    # respawn
    sp_ = by.get("was_ball_spawned", [])
    yes = {e.node.id for v, e in sp_ if v.op == "const" and v.a[1] in (True, 1)}
    no = {e.node.id for v, e in sp_ if v.op == "const" and v.a[1] in (False, 0)}
    if spawn and all(v.op == "const" for v, e in sp_):
        rep.check(bool(yes) and bool(no), "pong", "spawned", "%s: a new ball isn't marked as such" % f)
        rep.check(not any(passes(g, n, set(), no) for n in yes), "pong", "spawned", "%s: the mark of a new ball is removed in the step which spawned it" % f)
        rep.check(not passes(g, None, no, rets(g)), "pong", "spawned-reset", "%s: the mark of a new ball may be left from an older step" % f)
        for n in sorted(spawn):
            rep.check(n in yes or not passes(g, n, yes, rets(g)), "pong", "spawned-set", "%s: a new ball isn't marked" % f)
        for n in sorted(yes):
            rep.check(n in spawn or not passes(g, None, spawn, {n}) or not passes(g, n, spawn, rets(g)), "pong", "spawned-only", "%s: a ball is marked as new which isn't" % f)
    # bat
    for v, e in by.get("batX", []):
        lo, hi, to = 2 * sym("batWidth"), sym("szX") - 1 + sym("batWidth"), sym("batX") + S("(%s//2)" % (sym("batVX") * sym("batWidth")))
        if v.op == "call" and v.a[0].endswith("clamp"):
            ok = [num(x) for x in v.a[1:4]] == [sp.expand(to), sp.expand(lo), sp.expand(hi)]
        else:
            try:
                got = nm.s(v)
                ok = got == sp.Max(lo, sp.Min(hi, to)) or got == sp.Min(hi, sp.Max(lo, to))
            except (NotNumeric, TypeError):
                ok = None
        if ok is not None and best.root(v).op != "phi":
            rep.check(ok, "pong", "bat", "%s: the bat moves to %s" % (e.where, show(v)))
    rep.floor("pong", len(ws), 8, "changes of the environment")


def texts(v):
    return [str(x.a[1]).strip("'\"") for x in q.subs(v) if x.op == "const" and isinstance(x.a[1], str)]


ENVATOMS = ["Term::convTermToStr", "Nar::createNar", STEP0, STEP1, INPUT, "Nar::cycle", "EnvPong3::simStep", "EnvPong3::makeEnvState", "NarProc::debugEvidence", "NarGoalSystem::dbgRetGoalsAsText", EVENT, "NarGoalSystem::retEntries",
            "ProcTicTacToe::tryMove", "ProcTicTacToe::trimNewline", "Term::checkEqTerm"]


def calls(g, n):
    return [e for e in g.events("call") if e.name == n and g.nodes[e.node.id].facts]


def memory(rep, g, f):
    es = calls(g, STEP1)
    rep.floor("round", len(es), 1, "steps in " + f)
    for e in es:
        v = e.args[1]
        rep.check(v.op == "agg" and v.a[1] == "Some" and is_field(best.root(v.a[3]) if False else v.a[3], "mem"), "round", f + ":memory", "%s: the operators get %s as declarative memory" % (e.where, show(v)))
    for e in calls(g, EVENT):
        s = e.args[1]
        fl = dict(zip(s.a[2], s.a[3:])) if s.op == "agg" else {}
        ok = fl and is_field(fl["occT"], "t") and is_field(fl["evi"], "t")
        rep.check(bool(ok) or not fl, "round", f + ":time", "%s: the event is at %s" % (e.where, show(fl.get("occT")) if fl else show(s)))


def rounds(rep):
    for f, sim in (("Reasoner1Entry::reasoner1Entry", "EnvPong3::simStep"), ("ProcChaosEntry::procChaosEntry", None)):
        g = rep.graph(f, atoms=ENVATOMS)
        memory(rep, g, f)
        s0, s1, ev = ({e.node.id for e in calls(g, n)} for n in (STEP0, STEP1, EVENT))
        if not rep.check(bool(s0 and s1 and ev), "round", f, "%s: a round has no event or step" % f):
            continue
        for n in s0:
            rep.check(not passes(g, n, ev, s1), "round", f + ":event", "%s: a round may have no event" % f)
            rep.check(not passes(g, n, s1, s0 | rets(g)), "round", f + ":step", "%s: step 1 of a round may be left out" % f)
        for n in s1:
            rep.check(not passes(g, n, s0, s1), "round", f + ":step0", "%s: step 0 of a round may be left out" % f)
        for n in ev:
            rep.check(not passes(g, n, s1, ev), "round", f + ":once", "%s: a round may have more than one event" % f)
        if sim:
            sm = {e.node.id for e in calls(g, sim)}
            for n in s1:
                rep.check(bool(sm) and not passes(g, n, sm, s0 | rets(g)), "round", f + ":sim", "%s: the environment may not be simulated in a round" % f)
            for n in sm:
                rep.check(not passes(g, n, s1, sm), "round", f + ":sim1", "%s: the environment may be simulated more than once in a round" % f)
            seen(rep, g, f)
    g = rep.graph("ProcTicTacToe::run", atoms=ENVATOMS)
    memory(rep, g, "ProcTicTacToe::run")
    tictactoe(rep, g)


def seen(rep, g, f):
    """the event says where the ball is"""
    class N(arith.Names):
        def name(self, v):
            if v.op == "field" and v.a[1] in ("ballX", "batX", "batWidth"):
                return S(v.a[1])
            return super().name(v)
    nm = N(g, {})

    def fact(d, lo, hi):
        for v, p in d:
            c = rank.less(v, p)
            if c:
                try:
                    a, b = nm.s(c[0]), nm.s(c[1])
                except (NotNumeric, TypeError):
                    continue
                if a.has(sp.Abs) == lo.has(sp.Abs) and b.has(sp.Abs) == hi.has(sp.Abs) and equal(a - b, lo - hi):
                    return "<" if c[2] else "<="
        return None
    diff, w, z = S("ballX") - S("batX"), S("batWidth"), sp.Integer(0)
    n = 0
    for e in calls(g, EVENT):
        s = e.args[1]
        ps = [x for x in q.subs(s) if x.op == "phi" and x.id in g.phis and all(y.op == "const" and isinstance(y.a[1], str) for _, y in best.leaves(g, x))]
        cs = [(y.a[1], d) for pr, y in best.leaves(g, ps[0]) for d in q._fs(g, g.OUT.get(pr) or [])] if ps else [(t, d) for t in texts(s)[-1:] for d in g.facts_at(e.node)]
        for t, d in cs:
            k = str(t).strip("'\"")[-1:]
            n += 1
            if k == "c":
                ok = fact(d, sp.Abs(diff), w) == "<="
            elif k == "l":
                ok = fact(d, diff, z) == "<" and fact(d, w, sp.Abs(diff)) == "<"
            elif k == "r":
                ok = fact(d, z, diff) is not None and fact(d, w, sp.Abs(diff)) == "<"
            else:
                ok = False
            rep.check(ok, "seen", "ball-" + k, "%s: the event is %s [%s]" % (e.where, t, q.fmt(d)))
    rep.floor("seen", n, 3, "events in " + f)


# ---------------------------------------------------------------- tic-tac-toe
LINES = {frozenset(x) for x in ((0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8), (0, 4, 8), (2, 4, 6))}


def blank(v):
    return v.op == "const" and str(v.a[1]).strip("'") in (" ", "", "32") and v.a[1] is not None


def move(rep):
    f = "ProcTicTacToe::tryMove"
    g = rep.graph(f)
    gs, idx = adt.param(g, 1), adt.param(g, 2)
    fld, pl = g.field(gs, "field"), g.field(gs, "player")
    mine = lambda v: v.op == "idx" and v.a[0] is fld and rank.uncast(v.a[1]) is idx
    free = lambda d, want: best.has(d, lambda v, p: v.op == "bin" and v.a[0] == "Eq" and p == want and any(mine(k) for k in kids(v)) and any(blank(k) for k in kids(v)))
    ws = [(t, v, e) for t, v, e in q.writes(g) if g.nodes[e.node.id].facts]
    for t, v, e in ws:
        if not rep.check(mine(t), "move", "cell", "%s: %s is changed" % (e.where, show(t))):
            continue
        for d in g.facts_at(e.node):
            rep.check(free(d, True), "move", "free", "%s: a field is set which isn't known to be empty [%s]" % (e.where, q.fmt(d)))
        for pr, w in best.leaves(g, v):
            for d in (g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or [])):
                k = str(w.a[1]) if w.op == "const" else "?"
                ok = best.has(d, lambda x, p: x is pl and p == (k in ("a", "97"))) and k in ("a", "b", "97", "98")
                rep.check(ok, "move", "sign", "%s: the sign set is %s [%s]" % (e.where, show(w), q.fmt(d)))
    ids = {e.node.id for _, _, e in ws}
    n = 0
    for e in g.events("return"):
        for pr, w in best.leaves(g, e.val):
            if w.op != "const":
                if w.op == "bin" and w.a[0] == "Eq" and any(mine(k) for k in kids(w)) and any(blank(k) for k in kids(w)):
                    n += 2
                continue
            n += 1
            for d in (g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or [])):
                rep.check(free(d, False) if not w.a[1] else free(d, True) or pr is not None and not passes(g, None, ids - {pr}, {pr} - ids), "move", "answer", "%s: the move is reported as %s [%s]" % (f, "valid" if w.a[1] else "invalid", q.fmt(d)))
    rep.floor("move", n, 2, "answers of " + f)
    for u, x, ds in rank.avoid(g, 0, ids, rets(g), panics=False):
        for d in ds:
            rep.check(rank.known(g, d, lambda z: free(z, False)), "move", "always", "%s: the field isn't set [%s]" % (f, q.fmt(d)))


def tictactoe(rep, g):
    f = "ProcTicTacToe::run"
    # new games
    n = 0
    news = set()
    for e in g.events("agg"):
        v = e.val
        if v is not None and str(v.a[0]).endswith("Gamestate") and g.nodes[e.node.id].facts:
            n += 1
            news.add(e.node.id)
            fl = dict(zip(v.a[2], v.a[3:]))["field"]
            rep.check(call(fl, "vec::from_elem") and blank(fl.a[1]) and loops.ival(fl.a[2]) == 9, "game", "new", "%s: a new game begins with %s" % (e.where, show(fl)))
    rep.floor("game", n, 1, "new games")
    # moves alternate
    TM = "ProcTicTacToe::tryMove"
    tries = {e.node.id for e in calls(g, TM)}
    flips = set()
    for t, v, e in [(t, v, e) for t, v, e in q.writes(g) if is_field(t, "player")] + [(e.extra, e.val, e) for e in g.events("lwrite") if isinstance(e.extra, V) and is_field(e.extra, "player")]:
        if not g.nodes[e.node.id].facts or e.node.id in flips:
            continue
        flips.add(e.node.id)
        rep.check(v.op in ("un", "not", "call") and any(is_field(x, "player") for x in q.subs(v)) and "Not" in show(v) or opposite(g, v), "game", "alternate", "%s: the next player is %s" % (e.where, show(v)))
    rep.check(bool(flips), "game", "alternate", "%s: the players don't alternate" % f)
    good = set()
    for nd in g.nodes.values() if isinstance(g.nodes, dict) else g.nodes:
        for s, label in nd.succ:
            ef = g.edge_facts(nd, label)
            if not ef or not g.nodes[s].facts:
                continue
            vs = [((g.vals[x[0]], x[1]) if not isinstance(x[0], V) else x) for x in ef]
            if any(p and (call(v, TM) or v.op == "phi" and v.id in g.phis and any(call(w, TM) for _, w in best.leaves(g, v)) and all(call(w, TM) or w.op == "const" and not w.a[1] for _, w in best.leaves(g, v))) for v, p in vs):
                good.add((nd.id, s))
                rep.check(not (s not in flips | news and passes_from(g, s, flips | news, tries)), "game", "turn", "%s: after a valid move the same player may move again" % f)
    for n in sorted(news) + sorted(flips):
        rep.check(not avoids(g, n, good, flips), "game", "valid", "%s: the other player is next though no valid move may have been made" % f)
    winner(rep, g, f)


def avoids(g, start, edges, stops):
    """a stop can be reached after start without one of the edges"""
    seen_, st = set(), [(start, s) for s, _ in g.nodes[start].succ]
    while st:
        u, s = st.pop()
        if s in seen_ or (u, s) in edges or not g.nodes[s].facts:
            continue
        if s in stops:
            return True
        seen_.add(s)
        st += [(s, x) for x, _ in g.nodes[s].succ]
    return False


def passes_from(g, s, through, stops):
    seen_, st = set(), [s]
    while st:
        u = st.pop()
        if u in seen_ or u in through or not g.nodes[u].facts:
            continue
        seen_.add(u)
        if u in stops:
            return True
        st += [x for x, _ in g.nodes[u].succ]
    return False


def winner(rep, g, f):
    nm = arith.Names(g, {})
    cellof = lambda v: (v.op == "idx" or v.op == "cidx" and not v.a[2]) and is_field(v.a[0], "field")

    def at(v):
        if v.op == "cidx":
            return sp.Integer(v.a[1])
        try:
            s = sp.expand(nm.s(v.a[1]))
        except (NotNumeric, TypeError):
            return None
        return s if all(x.name.startswith("i<") for x in s.free_symbols) else None
    cand = []
    for e in g.events("agg"):
        v = e.val
        if v is not None and v.op == "agg" and v.a[1] == "Some" and cellof(v.a[3]) and g.nodes[e.node.id].facts:
            cand.append(e)
    covered, unknown = set(), False
    for e in cand:
        a = at(e.val.a[3])
        if a is None:
            unknown = True
            continue
        for d in g.facts_at(e.node):
            eqs, filled = [], set()
            for v, p in d:
                if v.op == "bin" and v.a[0] == "Eq":
                    x, y = v.a[1:3]
                    if p and cellof(x) and cellof(y) and at(x) is not None and at(y) is not None:
                        eqs.append((at(x), at(y)))
                    for c, o in ((x, y), (y, x)):
                        if not p and cellof(c) and blank(o):
                            filled.add(at(c))
            comp = {a}
            for _ in range(4):
                for x, y in eqs:
                    if x in comp or y in comp:
                        comp |= {x, y}
            var = sorted({s for x in comp for s in x.free_symbols}, key=str)
            rng_ = [sp.sympify(s.name[2:-1]) for s in var]
            if any(not r.is_Integer for r in rng_):
                unknown = True
                continue
            if var and int(rng_[0]) <= 0:
                continue
            good = None
            for i in range(int(rng_[0]) if var else 1):
                cs = {int(x.subs({s: i for s in var})) for x in comp}
                ls = [l for l in LINES if l <= cs and int(a.subs({s: i for s in var})) in l]
                good = bool(ls) and good is not False
                covered |= set(ls)
            rep.check(bool(good) and bool(filled & comp), "winner", "line", "%s: the owner of field %s wins, known are equal fields %s%s" % (e.where, a, sorted(map(str, comp)), "" if filled & comp else ", which may be empty"))
    rep.floor("winner", len(cand), 1, "ways to win")
    if not unknown:
        rep.check(covered == LINES, "winner", "all", "%s: no one wins with %s" % (f, [sorted(x) for x in sorted(LINES - covered, key=sorted)]))
    # a line which is complete isn't passed over
    flips = {e.node.id for e in g.events("lwrite") if isinstance(e.extra, V) and is_field(e.extra, "player")}
    for e in cand:
        ls = [l for l in loops.loops(g) if e.node.id in l.body]
        ls = sorted(ls, key=lambda l: len(l.body))
        if ls and len(ls[0].body) < 60 and any(s.name.startswith("i<") for s in (at(e.val.a[3]) or sp.Integer(0)).free_symbols):
            l = ls[0]
            for u, x, ds in rank.avoid(g, l.head, {e.node.id}, {l.head}, l.body):
                for d in ds:
                    if not l.exhausted(d):
                        rep.check(rank.known(g, d, lambda z: best.has(z, lambda v, p: v.op == "bin" and v.a[0] == "Eq" and any(cellof(k) for k in kids(v)))), "winner", "passed", "%s: a line may be passed over [%s]" % (e.where, q.fmt(d)))
    # told
    for e in calls(g, INPUT):
        if any(t.startswith("w.") for t in texts(e.args[1])):
            for d in g.facts_at(e.node):
                rep.check(best.has(d, lambda v, p: v.op == "bin" and v.a[0] == "Eq" and p and any(payload(k) is not None for k in kids(v)) and any(k.op == "const" and str(k.a[1]) in ("a", "97") for k in kids(v))), "winner", "told", "%s: the reasoner is told that it has won [%s]" % (e.where, q.fmt(d)))


# ---------------------------------------------------------------- evaluation, attention
def evaluation(rep):
    f = "Eval::run"
    g = rep.graph(f, atoms=["Nar::cycle"])
    cyc = {e.node.id for e in calls(g, "Nar::cycle")}
    reg = {e.node.id for e in g.events("call") if e.name in q.PUSH and is_field(e.args[0], "globalQaHandlers") and g.nodes[e.node.id].facts}
    if not rep.check(bool(cyc) and bool(reg), "evaluation", "cycle", "%s: no cycle or no handler for answers" % f):
        return
    rep.check(not passes(g, None, reg, cyc), "evaluation", "handler", "%s: the reasoner may run before the handler is registered" % f)
    found = lambda d, want: best.has(d, lambda v, p: is_field(v, "foundAnswer") and p == want)
    n = 0
    for e in g.events("return"):
        for pr, v in best.leaves(g, e.val):
            for d in (g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or [])):
                n += 1
                if v.op == "agg" and v.a[1] == "Some":
                    rep.check(found(d, True), "evaluation", "found", "%s: a cycle is returned though no answer is known [%s]" % (f, q.fmt(d)))
                    x = v.a[3]
                    ls = [l for l in loops.loops(g) if cyc & l.body]
                    i = rank.uncast(x)
                    ok = i.op == "elem" and i.a[0].op == "agg" and loops.ival(i.a[0].a[3]) == 0 or any(l.index and l.index[0] is i and list(l.index[1]) == [0] for l in ls) or i.op == "count"
                    rep.check(ok, "evaluation", "number", "%s: the number of the cycle is %s" % (f, show(x)))
                elif v.op == "agg" and v.a[1] == "None":
                    ls = [l for l in loops.loops(g) if cyc & l.body]
                    rep.check(any(l.exhausted(d) for l in ls), "evaluation", "none", "%s: no answer is reported before all cycles are over [%s]" % (f, q.fmt(d)))
    rep.floor("evaluation", n, 2, "results of " + f)
    for l in loops.loops(g):
        if cyc & l.body:
            tests = {u for u in l.body for s, lab in g.nodes[u].succ for x in [g.edge_facts(g.nodes[u], lab)] if x for y in x for v in [g.vals[y[0]] if not isinstance(y[0], V) else y[0]] if is_field(v, "foundAnswer")}
            rep.check(not any(passes(g, c, tests, cyc | rets(g)) for c in cyc), "evaluation", "tested", "%s: after a cycle it may not be tested for an answer" % f)
            rep.check(not any(passes(g, l.head, cyc, {t}) for t in tests), "evaluation", "each", "%s: a round may have no cycle" % f)
    f = "<Eval::QHandlerImpl as NarWorkingCycle::QHandler>::answer"
    if f in rep.c.fns:
        g = rep.graph(f, atoms=["Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"])
        ws = {e.node.id for t, v, e in [(t, v, e) for t, v, e in q.writes(g)] + [(e.extra, e.val, e) for e in g.events("lwrite")] if isinstance(t, V) and is_field(t, "foundAnswer") and v.op == "const" and v.a[1] in (True, 1) and g.nodes[e.node.id].facts}
        rep.check(bool(ws) and not passes(g, None, ws, rets(g)), "evaluation", "answer", "%s: an answer may not be noted" % f)


def attention(rep):
    f = "AeraishPerceptionComp::limit"
    g = rep.graph(f)
    arr, n = adt.param(g, 1), adt.param(g, 2)
    k = 0
    for e in g.events("return"):
        for pr, v in best.leaves(g, e.val):
            for d in (g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or [])):
                k += 1
                b, lim = rank.strip(v)
                if v.op == "new":
                    continue
                if not rep.check(b is arr and all(x == "prefix" and y is n for x, y in lim), "attention", "first", "%s: the result is %s" % (f, show(v))):
                    continue
                if not lim:
                    fits = best.has(d, lambda x, p: (lambda c: c and loops.len_of(c[0]) is arr and c[1] is n)(rank.less(x, p)))
                    rep.check(fits, "attention", "limit", "%s: more items than the limit may be returned [%s]" % (f, q.fmt(d)))
    rep.floor("attention", k, 1, "results of " + f)


def check(rep):
    operators(rep)
    relation(rep)
    pong(rep)
    rounds(rep)
    move(rep)
    evaluation(rep)
    attention(rep)
