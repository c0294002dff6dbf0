"""C18: evidence for rules: revised where it is known already, stored where it is new, found from both ends."""
import adt
import best
import loops
import q
import rank
import c15
from c15 import call, payload, at
from c13 import is_field
from vg import show, kids, V

LEVEL = "other"
RULE = ("Store worker: every rule found under the condition or the consequence of the new one is revised (counts added, stamps merged, both on the same paths) exactly if its term is equal, its evidence disjoint and its interval not shorter; "
        "the new rule is stored exactly if none was revised; the worker ends only when the channel is closed. "
        "Adding: the rule and every generalisation of it are stored under all subterms of condition and consequence; a generalisation is a copy of the rule with the term replaced; exactly the rules (x --> [y], op) =/> z in which x occurs more than once are generalised, by one variable in place of x. Drawn variable names index within their alphabet.")
ASSUME = ["storeInConcepts2 is decided by C10, matchandintro_var1 by C08, merge/checkOverlap by C03, ret_beliefs_by_terms_nonunique by C10", "there is one worker per channel (checked: receivers are not shared)"]
P = "NarProc::"
FIND, ADDE, STORE, INTRO, INTRO1 = "NarMem::ret_beliefs_by_terms_nonunique", P + "mem_add_evidence", "NarMem::storeInConcepts2", "NarInfProcedural::matchandintro_var1_sentence", "NarInfProcedural::matchandintro_var1"
COND, PRED, SUBS, USUBS = P + "retSeqCond", P + "retPred", "Term::retSubterms", "Term::retUniqueSubterms"
EQ, OV, MERGE, COPY = "Term::checkEqTerm", "NarStamp::checkOverlap", "NarStamp::merge", "NarSentence::shallowCopySentence"
STR = ["Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"]


def known(g, d, f):
    return rank.known(g, d, lambda x: best.has(x, f))


def has_end(v, term, fn, g):
    """v is the condition / consequence of term"""
    if call(v, fn):
        return v.a[1] is term
    x = v
    if fn == PRED:
        return x.op == "vfield" and x.a[1] == "Stmt" and x.a[2] == "2" and x.a[0] is term
    return any(y is g.vfield(term, "Stmt", "1") for y in q.subs(x))


def worker(rep):
    fs = [f for f in rep.c.fns if f.startswith(P + "narInit::{closure")]
    n = 0
    for f in sorted(fs):
        g = rep.graph(f, atoms=[FIND, ADDE, COND, PRED, EQ, OV, MERGE] + STR)
        rc = [e for e in g.events("call") if e.name == "Receiver::recv" and g.nodes[e.node.id].facts] + [e for e in g.events("call") if e.name == "Iterator::next" and g.nodes[e.node.id].facts and "^rx" in show(e.args[0])]
        if not rc or not any(e.name == ADDE for e in g.events("call")):
            continue
        n += 1
        one(rep, g, rc[0])
    rep.floor("worker", n, 1, "workers that store evidence")


def one(rep, g, rc):
    adds = [e for e in g.events("call") if e.name == ADDE and g.nodes[e.node.id].facts]
    L = [l for l in loops.loops(g) if rc.node.id in l.body]
    L = max(L, key=lambda l: len(l.body)) if L else None
    if not rep.check(L is not None, "worker", "loop", "the worker handles one message only"):
        return
    over = lambda d: known(g, d, lambda v, p: v.op == "isv" and v.a[0] is rc.val and p == (v.a[1] in ("Err", "None")))
    for u, x, d in L.early():
        if g.nodes[x].facts and rank.returns(g, x):
            rep.check(over(d), "worker", "ends", "the worker may end though the channel is open [%s]" % q.fmt(d))
    # the message
    S = {e.args[1] for e in adds}
    if not rep.check(len(S) == 1, "worker", "what", "what is stored is %s" % [show(x) for x in S]):
        return
    s = S.pop()
    got = lambda m: any(x is rc.val for x in q.subs(m)) or m.op == "elem" and m.a[0] in (rc.args[0], loops.element_of(m)) and "^rx" in show(m)
    rep.check(is_field(s, "0") and got(s.a[0]), "worker", "message", "what is stored is %s, not the rule received" % show(s))
    msg = s.a[0]
    for e in adds:
        rep.check(e.args[3] is g.field(msg, "1"), "worker", "time", "%s: the time is %s" % (e.where, show(e.args[3])))
        rep.check("evidenceMem" in show(e.args[0]), "worker", "memory", "%s: it is stored in %s" % (e.where, show(e.args[0])))
        rep.check("nConceptBeliefs" in show(e.args[2]), "worker", "limit", "%s: the limit is %s" % (e.where, show(e.args[2])))
    term = g.field(s, "term")
    # candidates
    isC = lambda v: call(v, FIND)
    el = lambda v: loops.element_of(v) is not None and isC(loops.unfilter(loops.element_of(v))[0] or loops.element_of(v))
    finds = [e for e in g.events("call") if e.name == FIND and g.nodes[e.node.id].facts]
    if not rep.check(bool(finds), "revise", "find", "rules known already are not looked up"):
        return
    for e in finds:
        rep.check("evidenceMem" in show(e.args[0]), "revise", "memory", "%s: rules are looked up in %s" % (e.where, show(e.args[0])))
        its = [v for k, v, _ in q.contents(g, e.args[1])]
        for fn, nm in ((COND, "condition"), (PRED, "consequence")):
            rep.check(any(has_end(v, term, fn, g) for v in its), "revise", nm, "%s: rules are looked up by %s, not by the %s of the new one" % (e.where, [show(v) for v in its], nm))

    def eq(v, p):
        return v.op == "call" and v.a[0] == EQ and {x is term or (is_field(x, "term") and el(x.a[0]) and "e") for x in v.a[1:3]} == {True, "e"} and p

    def ov(v, p):
        return v.op == "call" and v.a[0] == OV and {x is g.field(s, "stamp") or (is_field(x, "stamp") and el(x.a[0]) and "e") for x in v.a[1:3]} == {True, "e"} and p
    xd = lambda v: (payload(v) or v) is g.field(s, "expDt")
    xo = lambda v: is_field(payload(v) or v, "expDt") and el((payload(v) or v).a[0])

    def longer(v, p):
        c = rank.less(v, p)
        return c is not None and not c[2] and xd(c[0]) and xo(c[1])

    def notlonger(v, p):
        c = rank.less(v, p)
        return c is not None and c[2] and xo(c[0]) and xd(c[1]) or best.is_none(v, p, xo) or best.is_none(v, p, xd)
    st, ev = [], []
    for t, v, e in q.writes(g):
        if not g.nodes[e.node.id].facts:
            continue
        b, path = t, []
        while b.op in ("field", "vfield") and not el(b):
            path.append(b.a[-1])
            b = b.a[0]
        if not el(b):
            continue
        if path == ["stamp"]:
            st.append((e, v, b))
        elif path == ["evi"]:
            ev.append((e, v, b))
        elif path and path[0] in ("pos", "cnt") and path[-1] == "evi":
            rep.check(adt.linear(g, v) == {t: 1, g.vfield(g.vfield(g.field(s, "evi"), "Some", "0"), "CNT", path[0]): 1}, "revise", "sum", "%s: %s becomes %s" % (e.where, path[0], show(v)))
            ev.append((e, None, b))
        else:
            rep.bad("revise", "other", "%s: %s of a rule known already is changed" % (e.where, path))
    if not (rep.check(bool(st), "revise", "stamp-exists", "the evidence base of a rule is never extended") & rep.check(bool(ev), "revise", "counts-exist", "the counts of a rule never grow")):
        return
    rep.floor("revise", len(st) + len(ev), 2, "changes of rules known already")
    for e, v, b in st:
        ok = call(v, MERGE) and {x is g.field(s, "stamp") or (is_field(x, "stamp") and el(x.a[0]) and "e") for x in v.a[1:3]} == {True, "e"}
        rep.check(ok, "revise", "stamp", "%s: the evidence base becomes %s" % (e.where, show(v)))
    for e, v, b in ev:
        if v is None:
            continue
        c = v.a[3] if v.op == "agg" and v.a[1] == "Some" else None
        if rep.check(c is not None and c.op == "agg" and c.a[1] == "CNT", "revise", "counts", "%s: the evidence becomes %s" % (e.where, show(v))):
            f2 = dict(zip(c.a[2], c.a[3:]))
            for k in ("pos", "cnt"):
                want = {g.vfield(g.vfield(g.field(x, "evi"), "Some", "0"), "CNT", k): 1 for x in (b, s)}
                rep.check(adt.linear(g, f2[k]) == want, "revise", "sum", "%s: %s becomes %s" % (e.where, k, show(f2[k])))
    for e, v, b in st + ev:
        for d in q._fs(g, g.nodes[e.node.id].facts):
            rep.check(known(g, d, eq), "revise", "equal", "%s: a rule with another term may be revised [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, lambda v_, p: ov(v_, not p)) or known(g, d, lambda v_, p: v_.op == "call" and v_.a[0] == OV and not p), "revise", "disjoint", "%s: a rule may be revised with evidence it rests on already [%s]" % (e.where, q.fmt(d)))
            rep.check(known(g, d, longer), "revise", "interval", "%s: a rule may be revised though its interval is not known to cover the new one [%s]" % (e.where, q.fmt(d)))
    skip = lambda d: known(g, d, lambda v, p: eq(v, not p) or ov(v, p) or notlonger(v, p))
    for grp, nm in ((st, "stamp"), (ev, "counts")):
        rs = rank.each(g, [e for e, _, _ in grp], isC, skip, panics=False)
        if rep.check(bool(rs), "revise", "all:" + nm, "not all rules found are considered"):
            for nd, why in rs:
                for w in [w for w in why if "may be skipped" in w or "filtered" in w or "stop" in w]:
                    if not panics_only(g, w):
                        rep.bad("revise", "skip:" + nm, "a rule may keep its %s though it should be revised: %s" % (nm, w))
    # both or none: from the first change every way on makes the other one
    for e, v, b in st + ev:
        oth = ev if (e, v, b) in st else st
        l = rank.in_loop(g, e.node)
        stops = {l.head} if l is not None else {r.id for r in e.inst.retnodes}
        fwd = rank.avoid(g, e.node.id, {o.node.id for o, _, _ in oth}, stops, l.body if l is not None else None, panics=False)
        bwd = rank.avoid(g, l.head if l is not None else e.inst.meta[0].id, {o.node.id for o, _, _ in oth}, {e.node.id}, l.body if l is not None else None, panics=False)
        rep.check(not fwd or not bwd, "revise", "both", "%s: counts and evidence base may not change together" % e.where)
    flag(rep, g, adds, st + ev, L, eq, ov)


def panics_only(g, w):
    return False


def flag(rep, g, adds, revs, L, eq, ov):
    """stored exactly if nothing was revised"""
    marks, guards = [], []
    for e in adds:
        for d in q._fs(g, g.nodes[e.node.id].facts):
            hit = None
            for v, p in d:
                if v.op == "call" and v.a[0] == "Atomic::load":
                    hit = ("atomic", v.a[1], p)
                elif v.op == "phi" and g.is_bool(v) and any(w.op == "const" for _, w in rank.settings(g, v)):
                    hit = ("bool", v, p)
                elif v.op == "bin" and any(k.op == "phi" for k in kids(v)) and any(loops.ival(k) == 0 for k in kids(v)):
                    ph = [k for k in kids(v) if k.op == "phi"][0]
                    hit = ("count", ph, v.a[0] == "Eq" and p or v.a[0] in ("Lt",) and not p or v.a[0] == "Le" and p)
                elif v.op in ("any", "all"):
                    hit = ("scan", v, p)
            if rep.check(hit is not None, "store", "guard", "%s: the rule may be stored though one was revised [%s]" % (e.where, q.fmt(d))):
                guards.append(hit)
    if not guards or any(h[0] == "scan" for h in guards):
        return
    kind, X, pol = guards[0]
    rep.check(all(h[1] is X and h[2] == pol for h in guards), "store", "guard-same", "the rule is stored under different conditions")
    if kind == "atomic":
        init = [w.a[1] for w in q.subs(X) if call(w, "Atomic::new")]
        rep.check(bool(init) and init[0].op == "const" and init[0].a[1] is pol, "store", "initially", "the rule is not stored though nothing was revised (%s)" % show(X))
        sets = [e for e in g.events("call") if e.name == "Atomic::store" and e.args[0] is X and g.nodes[e.node.id].facts]
        for e in sets:
            rep.check(e.args[1].op == "const" and e.args[1].a[1] is (not pol), "store", "mark", "%s: the mark for a revision becomes %s" % (e.where, show(e.args[1])))
        marks = [(e.node.id, q._fs(g, g.nodes[e.node.id].facts)) for e in sets]
        fresh = [e for e in g.events("call") if e.val is X or call(e.val, "Atomic::new") and any(y is e.val for y in q.subs(X))]
        rep.check(all(e.node.id in L.body for e in fresh), "store", "fresh", "the mark of an earlier message is still set for the next one")
    else:
        for pr, w in rank.settings(g, X):
            c = w.a[1] if w.op == "const" else None
            if kind == "bool" and c is pol or kind == "count" and loops.ival(w) == 0:
                rep.check(pr in L.body, "store", "fresh", "the mark of an earlier message is still set for the next one")
                continue
            if kind == "bool" and not (w.op == "const"):
                rep.bad("store", "mark", "the mark for a revision becomes %s" % show(w))
            marks.append((pr, q._fs(g, g.OUT.get(pr) or [])))
        init = [w for pr, w in rank.settings(g, X)]
        rep.check(any(kind == "count" and loops.ival(w) == 0 or kind == "bool" and w.op == "const" and w.a[1] is pol for w in init), "store", "initially", "the rule is not stored though nothing was revised")
    if not rep.check(bool(marks), "store", "marked", "a revision is not remembered: the rule is stored as well"):
        return
    for nd, ds in marks:
        for d in ds:
            rep.check(known(g, d, eq) and known(g, d, lambda v, p: ov(v, not p) or v.op == "call" and v.a[0] == OV and not p), "store", "mark-only", "a rule that was not revised keeps the new one from being stored [%s]" % q.fmt(d))
    for e, v, b in revs:
        l = rank.in_loop(g, e.node)
        ms = {nd for nd, _ in marks}
        stops = {l.head} if l is not None else set()
        if e.node.id in ms:
            continue
        fwd = rank.avoid(g, e.node.id, ms, stops, l.body if l is not None else None, panics=False)
        bwd = rank.avoid(g, l.head if l is not None else 0, ms, {e.node.id}, l.body if l is not None else None, panics=False)
        rep.check(not fwd or not bwd, "store", "mark-path", "%s: a revision may not be remembered" % e.where)
    # and it is stored then
    at = {e.node.id for e in adds}
    last = [e.node.id for e in g.events("call") if e.name == FIND]
    for u, x, ds in rank.avoid(g, last[0], at, {L.head}, L.body, panics=False) if last else []:
        for d in ds:
            no = known(g, d, lambda v, p: (kind == "atomic" and v.op == "call" and v.a[0] == "Atomic::load" and v.a[1] is X or v is X) and p != pol or kind == "count" and v.op == "bin" and any(k is X for k in kids(v)))
            rep.check(no, "store", "lost", "a rule that revised nothing may not be stored [%s]" % q.fmt(d))


def adding(rep):
    g = rep.graph(ADDE, atoms=[STORE, INTRO, COND, PRED, SUBS, USUBS] + STR)
    mem, s, n, t = [adt.param(g, i) for i in (1, 2, 3, 4)]
    calls = [e for e in g.events("call") if e.name == STORE and g.nodes[e.node.id].facts]
    own, gen = [], []
    isG = lambda v: call(v, INTRO) and v.a[1] is s
    for e in calls:
        x = e.args[1]
        c = loops.element_of(x)
        if x is s:
            own.append(e)
        elif c is not None and isG(loops.unfilter(c)[0] or c):
            gen.append(e)
        elif c is not None and c.op in ("call", "new", "agg"):
            its = [v for k, v, _ in q.contents(g, c)]
            own.append(e)
            gen.append(e)
            rep.check(all(v is s or loops.element_of(v) is not None and isG(loops.element_of(v)) for v in its), "add", "what", "%s: what is stored is %s" % (e.where, [show(v) for v in its]))
        else:
            rep.bad("add", "what", "%s: what is stored is %s" % (e.where, show(x)))
        for a, w, nm in ((e.args[0], mem, "memory"), (e.args[3], n, "limit"), (e.args[4], t, "time")):
            rep.check(a is w, "add", nm, "%s: the %s is %s" % (e.where, nm, show(a)))
        # under which terms
        have = set()
        for v in lists(g, e.args[2]):
            for fn, nm in ((COND, "condition"), (PRED, "consequence")):
                if v.op == "call" and v.a[0] in (SUBS, USUBS) and has_end(v.a[1], g.field(x, "term"), fn, g):
                    have.add(nm)
        for nm in ("condition", "consequence"):
            rep.check(nm in have, "add", "under-" + nm, "%s: the rule is not stored under all subterms of its %s" % (e.where, nm))
    rep.floor("add", len(calls), 1, "places where rules are stored")
    if rep.check(bool(own), "add", "itself", "the rule itself is not stored"):
        ids = {e.node.id for e in own}
        hs = {l.head for l in loops.loops(g) if ids & l.body} if any(e in gen for e in own) else set()
        rep.check(not rank.avoid(g, 0, ids | hs, {r.id for r in g.root.retnodes}, panics=False), "add", "always", "the rule may not be stored")
    if rep.check(bool(gen), "add", "generalisations", "the generalisations of the rule are not stored"):
        rs = rank.each(g, gen, isG)
        for nd, why in rs:
            for w in why:
                rep.bad("add", "all-generalisations", "a generalisation may not be stored: %s" % w)
        if rs:
            rep.check(not rank.avoid(g, 0, {nd for nd, _ in rs}, {r.id for r in g.root.retnodes}, panics=False), "add", "generalisations-always", "the generalisations may not be stored")
        elif not any(e in own for e in gen):
            rep.bad("add", "all-generalisations", "not all generalisations are stored")


def lists(g, v):
    """the lists all of whose elements are in v"""
    out = []
    if v.op == "new" or v.op == "agg" and v.a[0] == "array":
        for e in g.events("call"):
            if e.args and e.args[0] is v and (e.name in q.EXTEND or e.name == "Vec::append") and g.nodes[e.node.id].facts:
                out += lists(g, e.args[1])
            elif e.args and e.args[0] is v and e.name in q.PUSH and loops.element_of(e.args[1]) is not None:
                l = rank.in_loop(g, e.node)
                if l is not None and not adt.skips(g, l.head, l.body, e.node.id, {l.head}) and any(x is loops.element_of(e.args[1]) for x in l.sources()):
                    out.append(loops.element_of(e.args[1]))
        return out
    if v.op == "call" and v.a[0] in ("Iterator::chain", "slice::concat"):
        return [y for k in kids(v) for y in lists(g, k)]
    w = loops.whole(v)
    if w is not None and w is not v:
        return lists(g, w)
    out = [v]
    for e in g.events("call"):
        if e.args and e.args[0] is v and (e.name in q.EXTEND or e.name == "Vec::append") and g.nodes[e.node.id].facts:
            out += lists(g, e.args[1])
    return out


def generalise(rep):
    if INTRO not in rep.c.fns:
        return
    g = rep.graph(INTRO, atoms=[INTRO1, COPY])
    s = adt.param(g, 1)
    n = 0
    for v in q.returned(g):
        A = [e.val for e in g.events("call") if e.name == INTRO1]
        if not rep.check(bool(A) and A[0].a[1] is g.field(s, "term"), "generalise", "of", "the generalisations are not those of the term of the rule"):
            continue
        fx, why = adt.list_map(g, v, A[0])
        if not rep.check(fx is not None and fx != "same", "generalise", "all", "not every generalisation is returned: %s" % why):
            continue
        n += 1
        if fx.op == "upd":
            rep.check(call(fx.a[0], COPY) and fx.a[0].a[1] is s and tuple(fx.a[1]) == ("term",) and adt.is_elem(fx.a[2], A[0]), "generalise", "copy", "the generalisation is %s" % show(fx))
        elif fx.op == "agg":
            for k, w in zip(fx.a[2], fx.a[3:]):
                ok = adt.is_elem(w, A[0]) if k == "term" else (w is g.field(s, k) or k == "usage" or call(w, "NarStamp::newStamp") and any(is_field(y, "stamp") for y in q.subs(w)))
                rep.check(ok, "generalise", "copy:" + k, "%s of the generalisation is %s" % (k, show(w)))
        else:
            rep.bad("generalise", "copy", "the generalisation is %s" % show(fx))
    rep.floor("generalise", n, 1, "ways to return generalisations")


def which(rep):
    """(x --> [y], op) =/> z is generalised, by a variable for x, exactly if x occurs more than once"""
    COUNT = "Term::count_occurence_subterms"
    rec = [f for f in adt.recursive(rep.c, INTRO1) if f not in (COUNT, EQ) and adt.TERM == rep.c.fns[f].locals[0]["t"]]
    if INTRO1 not in rep.c.fns or COUNT not in rep.c.fns or not rec:
        return
    g = rep.graph(INTRO1, atoms=rec + [COUNT, EQ, "NarInfProcedural::create_random_varname"])
    s = adt.param(g, 1)
    cop, subj = g.vfield(s, "Stmt", "0"), g.vfield(s, "Stmt", "1")
    seq = g.vfield(subj, "Seq", "0")
    first = [v for v in list(g.pool.t.values()) if v.op in ("idx", "cidx") and v.a[0] is seq and at(v) == 0]
    if not rep.check(bool(first), "generalise-which", "first", "the first condition of the rule is not looked at"):
        return

    def twice(d):
        """how often it occurs, as far as known: True if more than once, False if not"""
        r = []
        for v, p in d:
            if v.op != "bin" or v.a[0] not in ("Lt", "Le", "Eq", "Ne"):
                continue
            c = [k for k in v.a[1:3] if call(k, COUNT)]
            if len(c) != 1 or not (c[0].a[1] is s and any(c[0].a[2] is g.vfield(f, "Stmt", "1") for f in first)):
                continue
            fit = [k for k in range(1, 9) if c15.holds(v, p, lambda y: k if y is c[0] else loops.ival(y)) is not False]
            r.append(True if fit == list(range(2, 9)) else False if fit == [1] else None)
        return False if False in r else True if True in r else None
    said = lambda d: [q.isv(d, s, "Stmt"), q.isv(d, cop, "PREDIMPL"), q.isv(d, subj, "Seq"), length(d), any_(d, lambda f: q.isv(d, f, "Stmt")), any_(d, lambda f: q.isv(d, g.vfield(f, "Stmt", "0"), "INH")), any_(d, lambda f: q.isv(d, g.vfield(f, "Stmt", "2"), "SetInt")), twice(d)]
    what = ["a statement", "a predictive implication", "about a sequence", "of two", "starting with a statement", "which is an inheritance", "of a property", "and x occurs twice"]

    def any_(d, f):
        r = [f(x) for x in first]
        return True if True in r else False if False in r else None

    def length(d):
        fit = [k for k in range(0, 9) if all(c15.holds(v, p, lambda y: k if loops.len_of(y) is seq else loops.ival(y)) is not False for v, p in d if any(loops.len_of(y) is seq for y in kids(v)))]
        return True if fit == [2] else False if 2 not in fit else None
    n = 0
    for e in g.events("return"):
        for pr, w in best.leaves(g, e.val):
            its = q.contents(g, w)
            if w.op not in ("new", "agg", "array") and not its:
                continue
            ds = q._fs(g, g.OUT.get(pr) or []) if pr is not None else g.facts_at(e.node)
            if not its:
                for d in ds:
                    rep.check(rank.known(g, d, lambda x: False in said(x)), "generalise-which", "none", "a rule which could be generalised may not be [%s]" % q.fmt(d))
                continue
            if any(kind != "item" or ev is not None and ev.name in q.EXTEND for kind, v, ev in its):
                n += 1
                continue  # (gathered in another way)
            evs = [ev for kind, v, ev in its if ev is not None]
            if evs:
                ds = [d for ev in evs for d in g.facts_at(ev.node)]
            for kind, v, ev in its:
                n += 1
                rep.check(kind == "item" and v.op == "call" and v.a[0] in rec and v.a[1] is s and any(v.a[2] is g.vfield(f, "Stmt", "1") for f in first) and call(v.a[3], "NarInfProcedural::create_random_varname"), "generalise-which", "what", "the generalisation is %s" % show(v, 6))
            for d in ds:
                k = said(d)
                for i, x in enumerate(k):
                    rep.check(x is True or rank.known(g, d, lambda y: said(y)[i] is True), "generalise-which", "only:%d" % i, "a rule may be generalised which isn't known to be %s [%s]" % (what[i], q.fmt(d)))
    rep.floor("generalise-which", n, 1, "generalisations")


def names(rep):
    f = "NarInfProcedural::create_random_varname"
    if f not in rep.c.fns:
        return
    g = rep.graph(f)
    for e in g.events("call"):
        if e.name == "Iterator::nth" or e.name in ("Index::index",):
            s = [x for x in q.subs(e.args[0]) if x.op == "const" and isinstance(x.a[1], str)]
            r = e.args[1]
            R = r.a[2] if call(r, "Rng::gen_range") else None
            if len(s) == 1 and R is not None and (R.op == "agg" or R.op == "call" and "RangeInclusive" in R.a[0]):
                end = loops.ival(dict(zip(R.a[2], R.a[3:])).get("end")) if R.op == "agg" else loops.ival(R.a[2])
                inc = R.op == "call" or "Inclusive" in str(R.a[0])
                rep.check(end is not None and end + inc <= len(s[0].a[1].strip("'\"")), "names", "alphabet", "%s: a character up to number %s of %s is drawn" % (e.where, end, show(s[0])))
    for v in q.returned(g):
        rep.check(v.op == "agg" and v.a[1] == "IndepVar", "names", "kind", "the variable introduced is %s" % show(v))


def check(rep):
    worker(rep)
    adding(rep)
    generalise(rep)
    which(rep)
    names(rep)
