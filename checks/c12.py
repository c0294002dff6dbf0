"""C12: judgements become tasks: once, under a fresh id, indexed under every subterm; questions become open questions."""
import adt
import c04
import c10
import c11
import loops
import q
import rank
from vg import show, kids

LEVEL = "other"
RULE = ("Adding: every effect is guarded by complexity <= limit and is skipped only if complexity > limit. For each sentence handed on: the push into the task list happens on every path "
        "unless a task with equal term and same evidence base was found by a scan over all tasks (a scan ends early only at such a task); the pushed task holds a copy of the sentence and an id "
        "obtained by an atomic increment of the task counter, which nothing else writes; for all subterms of its term the task is added to the entry of the lookup table without losing what is there. "
        "A question is pushed into the list of open questions with no answer so far.")
ASSUME = ["HashMap semantics of std", "64-bit counter does not wrap around"]
ADD, REVISE, STORE, CX, SUBS, USUBS, COPY = c11.ADD, c11.REVISE, c11.STORE, "Term::calcComplexity", "Term::retSubterms", "Term::retUniqueSubterms", "NarSentence::shallowCopySentence"
EQ, SAME = "Term::checkEqTerm", "NarStamp::checkSame"
ATOMS = [REVISE, STORE, CX, SUBS, USUBS, COPY, EQ, SAME]


def sentence_param(g):
    return [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "Sentence" in g.root.fn.locals[i]["t"]][0]


class Subject:
    """a sentence that is handed on: value, node from which, nodes at which it is over"""
    def __init__(self, val, start, stops, region, what):
        self.val, self.start, self.stops, self.region, self.what = val, start, stops, region, what


def handed(g, s, rv):
    """the sentences handed on as tasks: elements of a loop over a list with the sentence, or the values themselves"""
    out = []
    for l in loops.loops(g):
        for src in l.sources():
            cs = [x for k, x, _ in q.contents(g, src)]
            if any(x is s for x in cs):
                els = [v for v in list(g.pool.t.values()) if v.op == "elem" and adt.is_elem(v, src)] + [v for v in list(g.pool.t.values()) if v.op == "vfield" and v.a[0].op == "next" and adt.is_elem(v, src)]
                out.append((Subject(els[0] if els else None, l.head, {l.head}, l.body, "list"), l, src, cs, els))
    return out


def field_of(v, name):
    return dict(zip(v.a[2], v.a[3:])).get(name) if v.op == "agg" else None


def tasks_in(g, v, kind):
    """aggregates of kind among the alternatives of v"""
    out = []
    for w in g.expand(v):
        out += [x for x in [w] if x.op == "agg" and str(x.a[0]).endswith("::" + kind)]
    return out


def is_field(v, name):
    return v.op == "field" and v.a[-1] == name


def gate(rep, g, s, effects):
    limit = [adt.param(g, i) for i in range(1, g.root.fn.argc + 1) if "omplexity" in str(g.root.fn.locals[i].get("n", "")) or "omplexity" in str(adt.param(g, i).a[1])]
    cx = lambda x: (lambda y: y.op == "call" and y.a[0] == CX and y.a[1] is g.field(s, "term"))(rank.uncast(x))
    lim = lambda x: any(rank.uncast(x) is l for l in limit)

    def fits(d):
        for v, p in d:
            c = rank.less(v, p)
            if c and cx(c[0]) and lim(c[1]) and not c[2]:
                return True
        return False

    def over(d):
        for v, p in d:
            c = rank.less(v, p)
            if c and lim(c[0]) and cx(c[1]) and c[2]:
                return True
        return False
    for e in effects:
        for d in g.facts_at(e.node):
            rep.check(rank.known(g, d, fits), "complexity-gate", e.name, "%s: %s happens without the term being known to be no more complex than the limit [%s]" % (e.where, e.name, q.fmt(d)))
    return fits, over


def adding(rep):
    g = rep.graph(ADD, atoms=ATOMS)
    s = sentence_param(g)
    rv = [e for e in g.events("call") if e.name == REVISE]
    pushes = [e for e in g.events("call") if e.name in q.PUSH and is_field(e.args[0], "judgementTasks")]
    qpush = [e for e in g.events("call") if e.name in q.PUSH and is_field(e.args[0], "questionTasks")]
    if not rep.check(bool(pushes), "judgement-becomes-task", "push", "no judgement is put into the list of tasks") or not rep.check(bool(rv), "judgement-becomes-task", "revise", "no revision"):
        return
    rep.check(bool(qpush), "question-is-opened", "push", "no question is put into the list of open questions")
    eff = rv + [e for e in g.events("call") if e.name == STORE] + pushes + qpush + [e for e in g.events("call") if e.name == "HashMap::insert"]
    fits, over = gate(rep, g, s, eff)
    for u, x, ds in rank.avoid(g, 0, {e.node.id for e in rv}, {r.id for r in g.root.retnodes}):
        for d in ds:
            rep.check(rank.known(g, d, over), "complexity-gate", "only", "%s: a sentence may be dropped although it is not more complex than the limit [%s]" % (rv[0].where, q.fmt(d)))
    n = 0
    for e in pushes:
        ts = tasks_in(g, e.args[1], "Task")
        if not rep.check(bool(ts), "task-content", "task", "%s: the task pushed is %s" % (e.where, show(e.args[1]))):
            continue
        for t in ts:
            se = field_of(t, "sentence")
            el = c11.uncopy(se)
            ok = el is s or rv[0].val in q.subs(el) or in_handed(g, el, s)
            rep.check(ok, "task-content", "sentence", "%s: the task holds %s" % (e.where, show(se)))
            ident = rank.uncast(field_of(t, "id"))
            rep.check(fresh(ident), "task-id", "fresh", "%s: the id of the task is %s, expected a fresh one" % (e.where, show(ident)))
            n += 1
            one(rep, g, e, el, s)
            index(rep, g, e, el, t)
    rep.floor("task-content", n, 1, "tasks pushed")
    whenever(rep, g, s, rv[0], pushes, "JUGEMENT", "judgement-becomes-task")
    for e in qpush:
        for t in tasks_in(g, e.args[1], "Task2"):
            el = c11.uncopy(field_of(t, "sentence"))
            rep.check(el is s or rv[0].val in q.subs(el) or in_handed(g, el, s), "question-is-opened", "sentence", "%s: the open question holds %s" % (e.where, show(el)))
            b = field_of(t, "bestAnswerExp")
            rep.check(b.op == "const" and float(b.a[1]) <= 0.0, "question-is-opened", "no answer yet", "%s: the best answer so far starts with expectation %s" % (e.where, show(b)))
            for d in g.facts_at(e.node):
                rep.check(not c11.punct_not(g, el, d, "QUESTION"), "question-is-opened", "only questions", "%s: opened as a question though it is none [%s]" % (e.where, q.fmt(d)))
    if qpush:
        whenever(rep, g, s, rv[0], qpush, "QUESTION", "question-is-opened", revised=False)


def in_handed(g, el, s):
    for l in loops.loops(g):
        for src in l.sources():
            if adt.is_elem(el, src) and any(x is s for k, x, _ in q.contents(g, src)):
                return True
    return False


def fresh(v):
    return v.op == "call" and v.a[0] == "Atomic::fetch_add" and is_field(v.a[1], "taskIdCounter") and v.a[2].op == "const" and isinstance(v.a[2].a[1], int) and v.a[2].a[1] >= 1


def isdup(g, el):
    """same term and same evidence base as a task of the list"""
    def pred(d):
        got = set()
        for v, p in d:
            if not p:
                continue
            nm = v.a[0] if v.op == "call" else (EQ if v.op == "bin" and v.a[0] == "Eq" else None)
            for want, fld in ((EQ, "term"), (SAME, "stamp")):
                if nm != want and not (v.op == "bin" and v.a[0] == "Eq"):
                    continue
                ks = kids(v)[:2]
                if any(k is g.field(el, fld) for k in ks) and any(is_field(k, fld) and is_field(k.a[0], "sentence") and of_tasks(k.a[0].a[0]) for k in ks):
                    got.add(fld)
        return got == {"term", "stamp"}
    return pred


def of_tasks(v):
    return any(is_field(x, "judgementTasks") for x in q.subs(v)) and v.op in ("elem", "vfield", "idx", "call")


def one(rep, g, e, el, s):
    """pushed only if no such task is known; the scan is complete"""
    dup = isdup(g, el)
    about = lambda v: v.op == "call" and v.a[0] == SAME and any(is_field(k, "stamp") and is_field(k.a[0], "sentence") and of_tasks(k.a[0].a[0]) for k in kids(v)) and any(k is g.field(el, "stamp") for k in kids(v)) or \
        v.op == "bin" and v.a[0] == "Eq" and any(is_field(k, "stamp") and is_field(k.a[0], "sentence") and of_tasks(k.a[0].a[0]) for k in kids(v))
    scanned = False
    for l in loops.loops(g):
        if any(is_field(x, "judgementTasks") for x in l.sources()):
            ex = [d for u, x, d in l.early() if g.nodes[x].facts]
            if any(x.node.id in l.body and x.val is not None and about(x.val) for x in g.events("call")):
                scanned = True
                for d in ex:
                    rep.check(rank.known(g, d, dup), "no-duplicate-task", "early", "%s: the search for the same task ends early without having found it [%s]" % (e.where, q.fmt(d)))
    for v in rank.scan_values(g):
        if any(about(x) for w in c10.truth_vals(g, v) for x in q.subs(w)):
            w = loops.whole(v.a[0])
            ok = w is not None and is_field(w, "judgementTasks")
            scanned = scanned or ok
            rep.check(ok, "no-duplicate-task", "cut", "%s: only a part of the tasks is searched for the same task" % e.where)
    rep.check(scanned, "no-duplicate-task", "scan", "%s: a task is pushed without looking through all tasks for the same one" % e.where)
    for d in g.facts_at(e.node):
        rep.check(not rank.known(g, d, dup), "no-duplicate-task", "push", "%s: a task is pushed though the same task was found [%s]" % (e.where, q.fmt(d)))


def whenever(rep, g, s, rv, pushes, punct, rule, revised=True):
    hs = handed(g, s, rv)
    dups = 0
    ids = {e.node.id for e in pushes}
    if hs:
        subj, l, src, cs, els = hs[0]
        for u, x, d in l.early():
            rep.check(not g.nodes[x].facts, rule, "early", "not all sentences are handed on")
        for u, x, ds in rank.avoid(g, l.head, ids, {l.head}, l.body):
            for d in ds:
                if l.exhausted(d):
                    continue
                dups += skip_ok(rep, g, rule, punct, els, d, pushes[0])
    else:
        for name, val, start in (("the sentence", s, rv.node.id),) + ((("the conclusion of revision", None, None),) if revised else ()):
            mine = [e for e in pushes if any((c11.uncopy(field_of(t, "sentence")) is s) == (val is s) for t in tasks_in(g, e.args[1], "Task") + tasks_in(g, e.args[1], "Task2"))]
            if not rep.check(bool(mine), rule, name, "%s is not handed on as a task" % name):
                continue
            if val is None:
                st = [nd.id for nd in g.nodes if nd.facts and all(any(v.op == "isv" and v.a[0] is rv.val and v.a[1] == "Some" and p for v, p in d) for d in g.facts_at(nd))]
                continue
            for u, x, ds in rank.avoid(g, start, {e.node.id for e in mine}, {r.id for r in g.root.retnodes}):
                for d in ds:
                    dups += skip_ok(rep, g, rule, punct, [s], d, mine[0])
    if punct == "JUGEMENT":
        rep.check(dups > 0, "no-duplicate-task", "skips", "%s: a judgement that is a task already becomes a second one" % pushes[0].where)


def skip_ok(rep, g, rule, punct, els, d, e):
    other = any(c11.punct_not(g, el, d, punct) for el in els)
    dup = punct == "JUGEMENT" and any(rank.known(g, d, isdup(g, el)) for el in els)
    rep.check(other or dup, rule, "path", "%s: a sentence may be left out [%s]" % (e.where, q.fmt(d)))
    return dup and not other


def index(rep, g, e, el, t):
    """after the push, for all subterms, the task is in the lookup table"""
    term = g.field(el, "term")
    subs = [l for l in loops.loops(g) if any(x.op == "call" and x.a[0] in (SUBS, USUBS) and (x.a[1] is term or x.a[1] is g.field(field_of(t, "sentence"), "term")) for x in l.sources())]
    if not rep.check(bool(subs), "task-is-indexed", "subterms", "%s: the task is not put into the lookup table for the subterms of its term" % e.where):
        return
    L = subs[0]
    for u, x, d in L.early():
        rep.check(not g.nodes[x].facts, "task-is-indexed", "early", "%s: not all subterms are indexed" % e.where)
    stops = {r.id for r in g.root.retnodes}
    out = rank.in_loop(g, e.node)
    if out and out.head != L.head:
        stops = stops | {out.head}
    for u, x, ds in rank.avoid(g, e.node.id, {L.head}, stops):
        for d in ds:
            rep.bad("task-is-indexed", "path", "%s: a task may stay out of the lookup table [%s]" % (e.where, q.fmt(d)))
    src = [x for x in L.sources()][0]
    same = lambda v: v is e.args[1] or any(w is t for w in g.expand(v))
    puts = set()
    for x in g.events("call"):
        if x.node.id not in L.body or not x.args or not hasattr(x.args[0], "op"):
            continue
        if x.name == "HashMap::insert" and is_field(x.args[0], "judgementTasksByTerm"):
            rep.check(adt.is_elem(x.args[1], src), "task-is-indexed", "key", "%s: indexed under %s" % (x.where, show(x.args[1])))
            cs = q.contents(g, x.args[2])
            has = any(same(v) for k, v, _ in cs) or any(y.name in q.PUSH and y.args[0] is x.args[2] and same(y.args[1]) and y.node.id in L.body for y in g.events("call"))
            if not has:
                continue
            puts.add(x.node.id)
            keeps = any(w.op in ("idx", "vfield", "call") and any(is_field(z, "judgementTasksByTerm") for z in q.subs(w)) for w in q.subs(x.args[2])) or \
                any(k == "all" for k, v, _ in cs)
            for d in g.facts_at(x.node):
                rep.check(keeps or c10.absent(d), "task-is-indexed", "keeps", "%s: the tasks already indexed under the subterm are lost [%s]" % (x.where, q.fmt(d)))
        elif x.name in q.PUSH and same(x.args[1]) and any(is_field(z, "judgementTasksByTerm") for z in q.subs(x.args[0])):
            c = x.args[0]
            # pushed in place: through get_mut / entry / index; a clone needs the insert
            if any(z.op == "call" and z.a[0] in ("HashMap::get_mut", "HashMap::entry", "Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "HashMap::index_mut") for z in q.subs(c)) or \
                    all(any(v.op == "isv" and v.a[1] == "Some" and p and v.a[0].op == "call" and v.a[0].a[0] == "HashMap::get_mut" for v, p in d) for d in g.facts_at(x.node)):
                puts.add(x.node.id)
    if not rep.check(bool(puts), "task-is-indexed", "put", "%s: the task is never put into the lookup table" % e.where):
        return
    for u, x, ds in rank.avoid(g, L.head, puts, {L.head}, L.body):
        for d in ds:
            rep.check(L.exhausted(d), "task-is-indexed", "every", "%s: a subterm may be left out [%s]" % (e.where, q.fmt(d)))


def check(rep):
    adding(rep)
    c04.monotone(rep, "taskIdCounter", "task id", 1)
