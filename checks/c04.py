"""Input sentences: fresh evidence id, own content, right destination."""
import q
import loops
import adt
import sympy as sp
from sym import to_sym, equal, NotNumeric
from c22 import fnum
from vg import V, show, kids

LEVEL = "other"
RULE = ("Value flow from the input functions: the evidence base of every new judgement is exactly one id obtained from an atomic fetch-and-add by a positive constant on "
        "one shared counter; crate-wide that counter is only ever created or incremented; the sentence built carries the caller's term, punctuation and truth value; "
        "case split over (event?, temporal?, punctuation) of the destination call reached; the counts of a "
        "predictive rule are, up to rounding and constant bounds, the algebraic forms c/(1-c) and f times that.")
ASSUME = ["atomic fetch-and-add returns distinct values until the 64-bit counter wraps"]
IN = "Nar::inputT2"
ADD, GOAL, EVI, NEWS, NEWST = ("NarWorkingCycle::memAddTask", "NarGoalSystem::addEntry", "NarProc::mem_add_evidence", "NarSentence::newEternalSentenceByTv", "NarStamp::newStamp")
ATOMS = [ADD, GOAL, EVI, NEWST, "NarSentence::convSentenceTermPunctToStr", "Term::convTermToStr", "Term::checkEqTerm"]


def ids_of(g, st):
    """elements of the id list a stamp value is built from, or None"""
    if st.op == "call" and st.a[0] == NEWST:
        c = kids(st)[0]
    elif st.op == "agg" and st.a[0] == "NarStamp::Stamp":
        c = st.a[3]
    else:
        return None
    return [(k, v) for k, v, _ in q.contents(g, c)]


def fresh(v):
    """(counter place, increment) if v is the result of an atomic increment"""
    if v.op == "call" and str(v.a[0]).startswith("Atomic") and v.a[0].endswith("::fetch_add"):
        k = kids(v)
        return k[0], loops.ival(k[1])
    return None


def sentences(g):
    for e in g.events("agg"):
        if e.val.op == "agg" and e.val.a[0] == "NarSentence::Sentence" and len(e.val.a) > 5:
            yield e, dict(zip(e.val.a[2], e.val.a[3:]))


def last(v):
    return v.a[1] if v.op == "field" else None


def check(rep):
    g = rep.graph(IN, atoms=ATOMS)
    P = lambda i: g.pool.mk("param", i, g.root.fn.locals[i].get("n"))
    nar, term, punct, tv, isev = P(1), P(2), P(3), P(4), P(5)
    counter = None
    n = 0
    sents = {}
    for e, f in sentences(g):
        n += 1
        sents[e.val.id] = f
        ids = ids_of(g, f["stamp"])
        ok = ids is not None and len(ids) == 1 and ids[0][0] == "item" and fresh(ids[0][1]) is not None
        if rep.check(ok, "fresh-id", IN, "%s: an input sentence gets the evidence base %s, not one freshly drawn id" % (e.where, show(f["stamp"]))):
            place, inc = fresh(ids[0][1])
            rep.check(inc is not None and inc >= 1, "increment", IN, "%s: evidence ids are drawn with increment %s" % (e.where, inc))
            rep.check(q.base_param(place) == 1, "shared-counter", IN, "%s: evidence ids are drawn from %s, which does not belong to the reasoner" % (e.where, show(place)))
            counter = last(place)
        rep.check(f["term"] is term, "own-term", IN, "%s: input sentence has term %s" % (e.where, show(f["term"])))
        rep.check(f["punct"] is punct, "own-punctuation", IN, "%s: input sentence has punctuation %s" % (e.where, show(f["punct"])))
        for x in g.expand(f["evi"]):
            if x.op == "agg" and x.a[1] == "Some" and x.a[3].op == "agg" and x.a[3].a[1] == "TV":
                rep.check(x.a[3].a[3] is tv, "own-truth", IN, "%s: input sentence has truth value %s" % (e.where, show(x)))
    rep.floor("fresh-id", n, 1, "input sentences")
    eternal(rep)
    route(rep, g, nar, term, punct, tv, isev, sents)
    if counter is None:
        return
    monotone(rep, counter, "evidence id", 2)
    others(rep, counter)


def monotone(rep, counter, what, least):
    # the counter is only ever created and incremented
    touch = 0
    for f in rep.c.fns.values():
        uses = False
        for b in f.blocks:
            if b.get("c"):
                continue
            for s in b["s"]:
                if s["k"] == "=":
                    rv = s["rv"]
                    if any(isinstance(p, dict) and p.get("f") == counter for p in s["pl"]["p"]):
                        rep.bad("counter-monotone", f.path, "%s:%s: the %s counter is assigned" % (f.file, s.get("line"), what))
                    for pl in places(rv):
                        if any(isinstance(p, dict) and p.get("f") == counter for p in pl["p"]):
                            uses = True
        if uses:
            gg = rep.graph(f.path, atoms=ATOMS, inline=lambda *a: False)
            for e in gg.events("call"):
                if e.args and e.args[0] is not None and e.args[0].op == "field" and e.args[0].a[1] == counter and "Atomic" in (e.name or ""):
                    touch += 1
                    op = e.name.split("::")[-1]
                    rep.check(op == "load" or op == "fetch_add" and (loops.ival(e.args[1]) or 0) >= 1, "counter-monotone", "%s:%s" % (f.path, op),
                              "%s: the %s counter is changed by %s(%s); ids could be handed out twice" % (e.where, what, op, show(e.args[1]) if len(e.args) > 1 else ""))
    rep.floor("counter-monotone", touch, least, "operations on the %s counter" % what)


def places(o):
    if isinstance(o, dict):
        if "l" in o and "p" in o and isinstance(o["p"], list):
            yield o
        for x in o.values():
            yield from places(x)
    elif isinstance(o, list):
        for x in o:
            yield from places(x)


def others(rep, counter):
    """every other place that makes an evidence base"""
    n = 0
    for fn in q.direct_sites(rep.c, [NEWST]):
        if fn == IN or fn.startswith("NarStamp::"):
            continue
        g = rep.graph(fn, atoms=[x for x in ATOMS if x != NEWST] + ["NarStamp::merge", "NarProc::narStep0", "NarWorkingCycle::reasonCycle", "Nar::inputN", "Nar::cycle", "NarGoalSystem::addEntry2"], maxdepth=3)
        made = [(e, f) for e, f in sentences(g) if not e.inst.fn.path.startswith("NarWorkingCycle::memReviseBelief")]
        for e, f in made:
            for st in g.expand(f["stamp"]):
                ids = ids_of(g, st)
                if ids is None:
                    continue
                n += 1
                for k, v in ids:
                    fr = fresh(v)
                    if fr is not None:
                        rep.check(last(fr[0]) == counter and (fr[1] or 0) >= 1, "shared-counter", fn, "%s: id drawn from %s" % (e.where, show(fr[0])))
                        continue
                    if v.op == "const":
                        ps = g.expand(f["punct"])
                        rep.check(all(p.op == "agg" and p.a[1] in ("QUESTION", "GOAL") for p in ps), "fresh-id", fn,
                                  "%s: a belief is given the constant evidence id %s" % (e.where, show(v)))
                        continue
                    # evidence of observed events
                    rep.check(v.op == "field" and v.a[1] == "evi", "fresh-id", fn, "%s: evidence id %s is neither freshly drawn nor that of an observed event" % (e.where, show(v)))
    rep.floor("fresh-id", n, 3, "other places that make evidence bases")


def eternal(rep):
    """inputT: the same as an input which is no event"""
    f = "Nar::inputT"
    if f not in rep.c.fns:
        return
    g = rep.graph(f, atoms=[IN])
    P = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1)]
    es = [e for e in g.events("call") if e.name == IN]
    if not es:
        return  # built from other parts
    for e in es:
        rep.check([x.id for x in e.args[:4]] == [x.id for x in P], "eternal", f, "%s: %s is input, not what was given" % (e.where, ", ".join(show(x) for x in e.args[:4])))
        for w in g.expand(e.args[4]):
            rep.check(w.op != "const" or w.a[1] in (False, "false", 0), "eternal", f + ":event", "%s: an eternal sentence is input as an event" % e.where)
    rep.check(any(adt.always(g, e.node) for e in es) or len(es) > 1, "eternal", f + ":always", "%s: a sentence isn't input on some path" % f)


ROUND = ("round", "floor", "ceil", "trunc", "max", "min", "clamp", "round_ties_even", "from", "into")


def bare(v):
    """(the number without rounding, casts and constant bounds, the lowest value it can have or None, all on the way)"""
    low, way = None, []
    while True:
        way.append(v)
        if v.op == "cast":
            v = v.a[1]
            continue
        if v.op == "call" and v.a[0].split("::")[-1] in ROUND:
            xs = [x for x in v.a[1:] if hasattr(x, "op")]
            cs = [x for x in xs if loops.ival(x) is not None or fnum(x) is not None]
            rest = [x for x in xs if x not in cs]
            if len(rest) != 1:
                return v, low, way
            k = v.a[0].split("::")[-1]
            if low is None and cs and k in ("max", "clamp"):
                low = fnum(cs[0]) if fnum(cs[0]) is not None else loops.ival(cs[0])
            v = rest[0]
            continue
        return v, low, way


def counted(rep, g, tv, e, evi):
    """a rule entered by the user has counted evidence of its own frequency and confidence: cnt = c/(1-c), pos = f*cnt, as far as counts can tell, and at least one"""
    for x in g.expand(evi):
        ok = x.op == "agg" and x.a[1] == "Some" and x.a[3].op == "agg" and x.a[3].a[1] == "CNT"
        if not rep.check(ok, "counted-evidence", IN, "%s: a predictive rule is stored with evidence %s, which isn't counted" % (e.where, show(x))):
            continue
        f = dict(zip(x.a[3].a[2], x.a[3].a[3:]))
        F, C, N = sp.symbols("F C N")

        def names(v):
            if v.op == "field" and v.a[0] is tv:
                return {"f": F, "c": C}.get(v.a[1])
            return N if any(v is x for x in way) else None
        cnt, low, way = bare(f["cnt"])
        try:
            good = equal(to_sym(cnt, lambda v: {"f": F, "c": C}.get(v.a[1]) if v.op == "field" and v.a[0] is tv else None), C / (1 - C))
        except NotNumeric:
            good = False
        rep.check(good and low is not None and low >= 1, "counted-evidence", IN + ":cnt", "%s: a predictive rule is stored with %s pieces of evidence: not those of its confidence, or possibly none" % (e.where, show(f["cnt"], 9)))
        pos, _, _ = bare(f["pos"])
        try:
            good = equal(to_sym(pos, names), F * N)
        except NotNumeric:
            good = False
        rep.check(good, "counted-evidence", IN + ":pos", "%s: a predictive rule is stored with %s pieces of positive evidence: not those of its frequency" % (e.where, show(f["pos"], 9)))


def route(rep, g, nar, term, punct, tv, isev, sents):
    """destination of an input sentence per case"""
    DEST = {ADD: "declarative", GOAL: "goal", EVI: "temporal"}

    def know(d):
        ev = None
        for v, p in d:
            if v is isev:
                ev = p
        pk, pex = q.variant_of(d, punct)
        st = q.isv(d, term, "Stmt")
        cop = None
        for v, p in d:
            if v.op == "isv" and v.a[1] == "PREDIMPL" and v.a[0] is g.vfield(term, "Stmt", "0"):
                cop = p
        temporal = True if st and cop else (False if st is False or cop is False else None)
        if pk is None and len(pex) == 2:
            pk = [x for x in ("JUGEMENT", "QUESTION", "GOAL") if x not in pex][0]
        return ev, temporal, pk

    def mine(x):
        if x.op != "agg" or x.a[0] != "NarSentence::Sentence":
            return False
        f = dict(zip(x.a[2], x.a[3:]))
        ids = ids_of(g, f["stamp"])
        return f["term"] is term and f["punct"] is punct and ids is not None and len(ids) == 1 and fresh(ids[0][1]) is not None

    got = {}
    for e in g.events("call"):
        dest = DEST.get(e.name)
        if dest is None and e.name in q.PUSH and len(e.args) > 1 and e.args[1].op == "agg" and e.args[1].a[0].endswith("SimpleSentence"):
            dest = "event"
        if dest is None and e.name and e.name.endswith("::event_happened"):
            dest = "event"
        if dest is None:
            continue
        for d in g.facts_at(e.node):
            ev, temporal, pk = know(d)
            ok = {
                "goal": ev is True and pk == "GOAL",
                "event": ev is True and pk in ("JUGEMENT",),
                "temporal": ev is False and temporal is True and pk == "JUGEMENT",
                "declarative": pk == "QUESTION" or pk == "JUGEMENT" and ev is False and temporal is False or
                pk is None and ev is False and temporal is False and q.variant_of(d, punct)[1] == {"GOAL"},
            }[dest]
            rep.check(ok, "destination", "%s:%s" % (dest, (ev, temporal, pk)), "%s: an input with event=%s temporal=%s punctuation=%s is handed to %s" % (e.where, ev, temporal, pk, dest))
            got.setdefault(dest, set()).add((ev, temporal, pk))
            if dest == "declarative" and pk is None:
                got[dest] |= {(ev, temporal, "JUGEMENT"), (ev, temporal, "QUESTION")}
        # what is handed over
        want = None
        if dest in ("declarative", "temporal", "goal"):
            arg = {"declarative": 1, "temporal": 1, "goal": 3}[dest]
            ok = any(any(mine(x) for x in q.subs(w)) for w in g.expand(e.args[arg]))
            rep.check(ok, "hands-over-input", dest, "%s: %s is handed over instead of the input sentence" % (e.where, show(e.args[arg])))
        if dest == "temporal":
            for w in g.expand(e.args[1]):
                for x in q.subs(w):
                    if mine(x):
                        counted(rep, g, tv, e, dict(zip(x.a[2], x.a[3:]))["evi"])
        if dest == "event":
            for w in g.expand(e.args[1]):
                if w.op == "agg" and w.a[0].endswith("SimpleSentence"):
                    f = dict(zip(w.a[2], w.a[3:]))
                    now = [x for x in q.subs(f["occT"]) if x.op == "field" and x.a[1] == "t"]
                    rep.check(f["name"] is term, "event-term", IN, "%s: event %s" % (e.where, show(f["name"])))
                    rep.check(bool(now) and f["occT"] is f["evi"] and f["occT"].op == "field", "event-time", IN,
                              "%s: the event occurs at %s with evidence %s, expected the current time" % (e.where, show(f["occT"]), show(f["evi"])))
    need = {"goal": [(True, None, "GOAL")], "event": [(True, None, "JUGEMENT")], "temporal": [(False, True, "JUGEMENT")],
            "declarative": [(False, False, "JUGEMENT"), (False, None, "QUESTION"), (True, None, "QUESTION")]}
    for dest, cs in need.items():
        for ev, t, pk in cs:
            hits = [x for x in got.get(dest, ()) if x[0] in (ev, None) and x[2] == pk and (t is None or x[1] in (t, None))]
            rep.check(bool(hits), "destination-reached", "%s:%s" % (dest, (ev, t, pk)), "no input with event=%s temporal=%s punctuation=%s reaches the %s part any more" % (ev, t, pk, dest))
    # both temporal and plain eternal questions
    qs = {x[1] for x in got.get("declarative", ()) if x[2] == "QUESTION" and x[0] in (False, None)}
    rep.check(None in qs or {True, False} <= qs, "destination-reached", "eternal questions", "only eternal questions with temporal=%s are registered" % sorted(map(str, qs)))
