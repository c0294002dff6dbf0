"""C25: a line does what its command says, all lines of a file or session are processed, quit and the end of the input end it."""
import adt
import loops
import q
import rank
from c22 import FAC, FATOMS, INN
from c24 import walk
from lines import Line, Run
from vg import V, kids, show

LEVEL = "other"
RULE = ("Facade: for each class of lines (by prefix or exact text, together all lines) every test of the line is decided or left open and the reachable part of the function is taken; the effects in it (steps, cycles, input, flush, registering of ops, "
        "babbling, quit, returned information) are those the command stands for, on the right data, on every path, once, in order, and no others. Sessions: every line read is handed over, just as it was read (or the last one, if it is empty), "
        "every line returned is printed, the loop is left if quit was requested, at the end of the input and on errors which won't go away, and not otherwise; the same for the lines of a file and for the files given to the program.")
ASSUME = ["std::io reads lines as documented"]
STEP0, STEP1, CYCLE, FLUSH, EVID, NLP, DT = FATOMS[0], FATOMS[1], FATOMS[2], FATOMS[3], FATOMS[5], FATOMS[6], FATOMS[4]
KEYS = {STEP0: "step A", STEP1: "step B", CYCLE: "cycle", FLUSH: "flush", EVID: "evidence", NLP: "nlp", INN: "narsese"}
MUT = ("Vec::push", "Vec::clear", "Vec::pop", "Vec::truncate", "Vec::retain", "Vec::insert", "Vec::remove", "Vec::extend", "Vec::append", "Vec::drain", "Vec::swap_remove", "VecDeque::push_back", "VecDeque::clear", "HashMap::insert", "HashMap::clear", "HashMap::remove", "Vec::extend_from_slice")
TOUT, TINT, FILE, BIN = "NarInteractive::runInteractive", "NarInteractive::", "NarUtilReadn::readNarseseFile", "main"
CMDS = ["!spA", "!spB", "!dtf", "!pse", "!peb 0", "!peb 1", "!dt", "!dmd", "!QQ"]
PREF = ["!s", "!por ", "!.nlp "]


def path(v):
    """(param name, [fields]) of a place"""
    fs = []
    while isinstance(v, V) and v.op in ("field", "vfield"):
        fs.append(str(v.a[-1]))
        v = v.a[0]
    return (v.a[1] if isinstance(v, V) and v.op == "param" else None), fs[::-1]


def effects(g):
    out = []
    for e in g.events():
        if not e.node.facts:
            continue
        if e.kind == "call" and e.name in KEYS:
            out.append((KEYS[e.name], e))
        elif e.kind == "call" and e.name in MUT and e.args and path(e.args[0])[0] == "nar":
            p = path(e.args[0])[1]
            out.append(("ops" if p[-1:] == ["ops"] and e.name == "Vec::push" else "change of " + ".".join(p), e))
        elif e.kind in ("write", "lwrite"):
            t = e.extra if e.kind == "lwrite" and isinstance(e.extra, V) else e.args[0]
            b, p = path(t)
            if b == "nar":
                out.append(("babbling" if p[-1:] == ["cfgEnBabbling"] else "change of " + ".".join(p), e))
            elif b == "quit":
                out.append(("quit", e))
    return out


# ---------------------------------------------------------------- assumptions about the argument of a command
def parse_is(ok):
    def f(r, v):
        x = None
        if v.op == "isv" and v.a[1] in ("Ok", "Err"):
            x, want = v.a[0], v.a[1] == "Ok"
        elif v.op == "isok":
            x, want = v.a[0], True
        elif v.op == "isv" and v.a[1] in ("Some", "None") and v.a[0].op == "call" and v.a[0].a[0] == "Result::ok":
            x, want = v.a[0].a[1], v.a[1] == "Some"
        elif v.op == "call" and v.a[0] in ("Result::is_ok", "Result::is_err"):
            x, want = v.a[1], v.a[0] == "Result::is_ok"
        if x is not None and x.op == "call" and x.a[0] in ("str::parse", "FromStr::from_str", "i64::from_str") and r.rest(x.a[1], 2):
            return ok is want
        return None
    return f


def words(r, v):
    while isinstance(v, V) and (v.op == "call" and v.a[0] in ("Iterator::collect", "Vec::from_iter", "ToString::to_string", "Vec::as_slice") or v.op == "idx" and v.a[1].op == "agg" and str(v.a[1].a[0]).endswith("RangeFull")):
        v = v.a[1] if v.op == "call" else v.a[0]
    return isinstance(v, V) and v.op == "call" and v.a[0] in ("str::split_whitespace", "str::split_ascii_whitespace") and r.rest(v.a[1], 5)


def word_at(r, v):
    """k: v is the k-th word"""
    while isinstance(v, V) and v.op == "call" and v.a[0] in ("ToString::to_string", "String::from", "str::to_string", "Clone::clone", "str::to_owned", "ToOwned::to_owned"):
        v = v.a[1]
    if v.op == "idx" and words(r, v.a[0]):
        return loops.ival(v.a[1])
    if v.op == "cidx" and words(r, v.a[0]):
        return v.a[1] if isinstance(v.a[1], int) else loops.ival(v.a[1])
    if v.op in ("okval", "vfield") and v.a[0].op == "call" and v.a[0].a[0] in ("slice::get", "Vec::get", "slice::first") and words(r, v.a[0].a[1]):
        return 0 if v.a[0].a[0] == "slice::first" else loops.ival(v.a[0].a[2])
    return None


def args_are(n, first):
    def f(r, v):
        if v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                c, k = loops.len_of(a), loops.ival(b)
                if c is not None and k is not None and words(r, c):
                    return (n == k) is (v.a[0] == "Eq")
                if b.op == "const" and isinstance(b.a[1], str) and word_at(r, a) == 0:
                    return (b.a[1] == first) is (v.a[0] == "Eq")
        if v.op == "bin" and v.a[0] in ("Lt", "Le"):
            a, b = v.a[1], v.a[2]
            op = (lambda x, y: x < y) if v.a[0] == "Lt" else (lambda x, y: x <= y)
            if loops.len_of(a) is not None and words(r, loops.len_of(a)) and loops.ival(b) is not None:
                return op(n, loops.ival(b))
            if loops.len_of(b) is not None and words(r, loops.len_of(b)) and loops.ival(a) is not None:
                return op(loops.ival(a), n)
        return None
    return f


# ---------------------------------------------------------------- facade
def is_nar(v, *fs):
    b, p = path(v)
    return b == "nar" and p == list(fs)


def some_mem(v):
    return v.op == "agg" and v.a[1] == "Some" and is_nar(v.a[3], "mem")


def facade(rep):
    g = rep.graph(FAC, atoms=FATOMS)
    line = next((v for v in g.pool.t.values() if v.op == "param" and v.a[0] == 2), None)
    eff = effects(g)
    isconst = lambda v: isinstance(v, V) and v.op == "const" and isinstance(v.a[1], str)
    cmps = [e for e in g.events("call") if e.node.facts and e.name in ("str::starts_with", "PartialEq::eq", "PartialEq::ne", "str::eq") and len(e.args) > 1 and isconst(e.args[1]) and len(e.args[1].a[1]) > 1 and line in q.subs(e.args[0])]
    unbroken(rep, g, cmps, lambda e: [e.args[0]], FAC)
    entry, rets = g.root.meta[0].id, {n.id for n in g.root.retnodes}
    rep.floor("commands recognised", len({k for k, e in eff}), 9, "the facade has effects on the reasoner")

    def op(ty, name=None):
        def f(r, e):
            x = e.args[1]
            ok = x.op == "agg" and x.a[0].endswith("::" + ty)
            return ok and (name is None or word_at(r, x.a[3]) == name)
        return f
    on = lambda *fs: lambda r, e: is_nar(e.args[0], *fs)
    bab = lambda b: lambda r, e: all(r.truth(x) is b for x in r.vals(e.args[-1]))
    stepA, stepB = ("step A", on("procNar")), ("step B", lambda r, e: is_nar(e.args[0], "procNar") and some_mem(e.args[1]))
    full = lambda r, e: is_nar(e.args[0]) and all(r.is_line(x) for x in r.vals(e.args[1]))
    cyc = ("cycle", on())
    C = [
        (Line("comment (//...)", "//", False), []),
        (Line("empty line", ""), []),
        (Line("!spA", "!spA"), [stepA]),
        (Line("!spB", "!spB"), [stepB]),
        (Line("!sp", "!sp", False, noteq=["!spA", "!spB"]), [stepA, stepB]),
        (Line("!s", "!s"), [cyc]),
        (Line("!s<number>", "!s", False, notpref=["!sp"], minlen=3, assume=parse_is(True)), [cyc]),
        (Line("!s<no number>", "!s", False, notpref=["!sp"], minlen=3, assume=parse_is(False)), []),
        (Line("!dtf", "!dtf"), [("flush", on("mem"))]),
        (Line("!por execinj", "!por ", False, assume=args_are(1, "execinj")), [("ops", op("Op_nal9__exec_and_inject"))]),
        (Line("!por nlpRel0", "!por ", False, assume=args_are(1, "nlpRel0")), [("ops", op("Op__nlp_rel_0"))]),
        (Line("!por NOP <name>", "!por ", False, assume=args_are(2, "NOP")), [("ops", op("OpNop", 1))]),
        (Line("!por <unknown>", "!por ", False, assume=args_are(1, "?")), []),
        (Line("!por <unknown> <name>", "!por ", False, assume=args_are(2, "?")), []),
        (Line("!por with too many words", "!por ", False, assume=args_are(3, "?")), []),
        (Line("!por NOP with too many words", "!por ", False, assume=args_are(3, "NOP")), []),
        (Line("!por NOP without name", "!por ", False, assume=args_are(1, "NOP")), []),
        (Line("!por execinj with too many words", "!por ", False, assume=args_are(2, "execinj")), []),
        (Line("!por without words", "!por ", False, assume=args_are(0, "?")), []),
        (Line("!pse", "!pse"), [("evidence", on("procNar"))]),
        (Line("!peb 0", "!peb 0"), [("babbling", bab(False))]),
        (Line("!peb 1", "!peb 1"), [("babbling", bab(True))]),
        (Line("!.nlp <text>", "!.nlp ", False, minlen=7), [("nlp", lambda r, e: is_nar(e.args[0]) and r.rest(e.args[1], 6))]),
        (Line("!dt", "!dt"), []),
        (Line("!dmd", "!dmd"), []),
        (Line("!QQ", "!QQ"), []),
        (Line("unknown command", "!", False, notpref=PREF, noteq=CMDS), [("narsese", full)]),
        (Line("any other line", "", False, notpref=["//", "!"], noteq=[""], minlen=1), [("narsese", full)]),
    ]
    for cls, want in C:
        r = Run(g, line, cls)
        here = [(k, e) for k, e in eff if e.node.id in r.nodes]
        name = cls.name
        rep.ok("class of lines analysed", "%s: %d of %d edges" % (name, len(r.edges), sum(len(n.succ) for n in g.nodes)))
        ret = rets & r.nodes
        # (which words an iterator hands out is not followed)
        soft = name.startswith("!por") and any(f.op == "isv" and f.a[0].op == "next" and words(r, f.a[0].a[0]) for u, x in r.edges for f, p in (g.edge_facts(g.nodes[u], dict((s, l) for s, l in g.nodes[u].succ).get(x)) or []))
        wanted = dict(want)
        for k, e in here:
            if k == "quit" or soft and k == "ops":
                continue
            if not rep.check(k in wanted, "a line has only the effect of its command", "%s:%s" % (name, k), "%s: a line of the kind '%s' leads to: %s" % (e.where, name, k)):
                continue
            rep.check(wanted[k](r, e), "a command works on the right data", "%s:%s" % (name, k), "%s: '%s': %s is given [%s]" % (e.where, name, k, ", ".join(show(a, 4) for a in e.args)))
        for k, ok in want:
            es = [e for kk, e in here if kk == k]
            if not rep.check(es, "a line has the effect of its command", "%s:%s" % (name, k), "%s: a line of the kind '%s' doesn't lead to: %s" % (FAC, name, k)):
                continue
            if soft:
                continue
            ids = {e.node.id for e in es}
            if k == "cycle":
                cycles(rep, g, r, es, entry, ret, name)
                continue
            reached = r.reach(entry, ids) | {entry}
            rep.check(entry in ids or not (reached - ids) & ret, "a line has the effect of its command on every path", "%s:%s" % (name, k), "%s: a line of the kind '%s' may be done without: %s" % (FAC, name, k))
            rep.check(not any(r.reach(i) & ids for i in ids), "a line has the effect of its command once", "%s:%s" % (name, k), "%s: '%s' may do more than once: %s" % (es[0].where, name, k))
        for (a, _), (b, _) in zip(want, want[1:]):
            A, B = [{e.node.id for kk, e in here if kk == k} for k in (a, b)]
            early = (r.reach(entry, A) - A) & B
            rep.check(not early, "the steps of a command are in order", "%s:%s" % (name, b), "%s: '%s': %s may be done before %s" % (FAC, name, b, a))
        quits(rep, g, r, [e for k, e in here if k == "quit"], entry, ret, name)
        if name in ("!dt", "!dmd"):
            vs = [x for n in g.root.retnodes if n.id in r.nodes for x in r.vals(n.info[1])]
            if name == "!dt":
                ok = bool(vs) and all(x.op == "call" and x.a[0] == DT and is_nar(x.a[1], "mem") for x in vs)
            else:
                ok = bool(vs) and all(counts(g, x) for x in vs)
            rep.check(ok, "what was asked for is returned", name, "%s: '%s' returns %s" % (FAC, name, [show(x, 4) for x in vs]))


def counts(g, x):
    cs = [w for k, w, e in q.contents(g, x)] if x.op in ("new", "phi") else [x]
    return any(loops.len_of(y) is not None and path(loops.len_of(y))[1][-1:] == ["concepts"] for w in cs for y in q.subs(w))


def quits(rep, g, r, es, entry, ret, name):
    want = name == "!QQ"
    good = {e.node.id for e in es if all(r.truth(x) is want for x in r.vals(e.args[-1]))}
    bad = [e for e in es if e.node.id not in good]
    rule = "quit is requested by its command only"
    if not want:
        rep.check(not bad, rule, name, "%s: a line of the kind '%s' requests to quit (%s)" % (FAC, name, bad[0].line if bad else ""))
    else:
        late = [e for e in bad if any(e.node.id in r.reach(i) for i in good)]
        rep.check(not late, rule, name, "%s: '%s': the request is taken back (%s)" % (FAC, name, late[0].line if late else ""))
    miss = entry not in good and ((r.reach(entry, good) | {entry}) - good) & ret
    rep.check(not miss, "every line says if quit is requested", name, "%s: a line of the kind '%s' may leave what is said about quitting as it was" % (FAC, name))


def cycles(rep, g, r, es, entry, ret, name):
    """number of cycles: one, or the number given"""
    rule = "as many cycles as asked for"
    ids = {e.node.id for e in es}
    ls = [l for l in loops.loops(g) if ids & l.body]
    by = adt._closures(g)
    if not ls and any(e.inst.id in by for e in es):
        ok = len(es) == 1
        coll, ev = by[es[0].inst.id] if es[0].inst.id in by else (None, None)
        if ok and coll is not None and coll.op == "agg" and str(coll.a[0]).endswith("Range") and ev.name == "Iterator::for_each":
            en = r.vals(coll.a[4])
            ok = loops.ival(coll.a[3]) == 0 and bool(en) and all(loops.ival(b) == 1 if name == "!s" else payload(r, b) for b in en)
        i = es[0].inst
        ok = ok and not (r.reach(entry, {ev.node.id}) - {ev.node.id}) & ret and not adt.skips(g, i.meta[0].id, None, es[0].node.id, {x.id for x in i.retnodes}) if ok and ev is not None else False
        rep.check(ok, rule, name, "%s: '%s' may not do the cycles asked for" % (es[0].where, name))
        return
    if not ls:
        if name == "!s":
            reached = r.reach(entry, ids)
            rep.check(not (reached - ids) & ret and not any(r.reach(i) & ids for i in ids), rule, name, "%s: '%s' may not do just one cycle" % (FAC, name))
        else:
            rep.bad(rule, name, "%s: '%s' does one cycle only" % (es[0].where, name))
        return
    inner = min(ls, key=lambda l: len(l.body))
    l = inner
    ok = len([x for x in ls]) == 1
    bounds = []
    for e in l.nexts:
        c = e.args[0]
        if c.op == "agg" and str(c.a[0]).endswith("Range"):
            f = dict(zip(c.a[2], c.a[3:]))
            bounds.append((r.vals(f["start"]), r.vals(f["end"]), 0))
        elif c.op == "agg" and str(c.a[0]).endswith("RangeInclusive") or c.op == "call" and str(c.a[0]).endswith("RangeInclusive::new"):
            x = c.a[3:5] if c.op == "agg" else c.a[1:3]
            bounds.append((r.vals(x[0]), r.vals(x[1]), 1))
    if l.index:
        i = l.index[0]
        for u, s, ds in l.exits:
            fs = g.edge_facts(g.nodes[u], dict((x, lb) for x, lb in g.nodes[u].succ)[s]) or []
            for v, p in fs:
                if v.op == "bin" and v.a[0] == "Lt" and v.a[1] is i and not p:
                    bounds.append(([w for pr, w in g.phis[i.id] if pr not in l.body], r.vals(v.a[2]), 0))
    down = countdown(g, r, l)
    if down is not None:
        bounds.append(([None], down, 0))

    def num(x):
        return payload(r, x)
    for st, en, inc in bounds:
        for a in st:
            for b in en:
                z = 0 if a is None else loops.ival(a)
                if name == "!s":
                    ok = ok and z is not None and loops.ival(b) is not None and loops.ival(b) + inc - z == 1
                else:
                    ok = ok and z is not None and z == inc and num(b)
        ok = ok and bool(st) and bool(en)
    rep.check(ok and bounds, rule, name, "%s: '%s': cycles are done from %s to %s" % (es[0].where, name, [[show(x, 3) if x is not None else 0 for x in st] for st, en, i in bounds], [[show(x, 4) for x in en] for st, en, i in bounds]))
    reached = r.reach(entry, {l.head})
    rep.check(l.head in reached and not (reached - {l.head}) & ret, rule, name + ":skipped", "%s: '%s' may be done without cycles" % (FAC, name))
    tgt = {e.node.id for e in es}
    rnd = [x for x in r.succ(l.head)]
    seen, todo, skip = set(), rnd, False
    while todo:
        u = todo.pop()
        if u in seen or u in tgt or u not in l.body:
            continue
        seen.add(u)
        if u == l.head:
            skip = True
            break
        todo += r.succ(u)
    rep.check(not skip, rule, name + ":round", "%s: a round may be done without a cycle" % (es[0].where))
    rep.check(not any(set(r.reach(i, {l.head})) & tgt for i in tgt), rule, name + ":twice", "%s: a round may do more than a cycle" % (es[0].where))
    for u, s, d in l.early():
        if (u, s) in r.edges and rank.returns(g, s) and down is None:
            rep.bad(rule, name + ":early", "%s:%s: the cycles may be ended before all are done [%s]" % (FAC, g.nodes[u].line, q.fmt(d)))


def countdown(g, r, l):
    """starting values of a counter which is counted down to zero by the loop"""
    for v in g.pool.t.values():
        if v.op == "phi" and v.id in g.phis and v.a[-1][1] == l.head:
            ins = g.phis[v.id]
            step = [w for p, w in ins if p in l.body]
            if step and all(w.op == "bin" and w.a[0] == "Sub" and w.a[1] is v and loops.ival(w.a[2]) == 1 for w in step):
                for u, s, ds in l.exits:
                    for d in ds:
                        for f, p in d:
                            if f.op == "bin" and f.a[0] == "Lt" and loops.ival(f.a[1]) == 0 and f.a[2] is v and not p or f.op == "bin" and f.a[0] == "Le" and f.a[1] is v and loops.ival(f.a[2]) == 0 and p:
                                return [x for p2, w in ins if p2 not in l.body for x in r.vals(w)]
    return None


def payload(r, x):
    while x.op == "cast" or x.op == "call" and x.a[0] in ("Option::unwrap_or", "Result::unwrap_or") and False:
        x = x.a[-1] if isinstance(x.a[-1], V) else x.a[0]
    if x.op in ("okval", "vfield"):
        x = x.a[0]
        if x.op == "call" and x.a[0] == "Result::ok":
            x = x.a[1]
        return x.op == "call" and x.a[0] in ("str::parse", "FromStr::from_str", "i64::from_str") and r.rest(x.a[1], 2)
    return False


def shown(rep):
    """!dt: each task of the working table, with its sentence and its credit"""
    g = rep.graph(DT, atoms=["NarWorkingCycle::taskCalcCredit", "NarSentence::convSentenceTermPunctToStr", "NarStamp::convToStr"])
    rule = "each task is shown with its credit"
    T = lambda v: path(v)[1][-1:] == ["judgementTasks"]
    vs = [n.info[1] for n in g.root.retnodes]
    es = [e for v in vs for k, w, e in q.contents(g, v) if k == "item" and e is not None]
    mp = [v for v in vs for x in q.subs(v) if x.op == "mapped" and T(loops.whole(x.a[0]) or x.a[0])]
    if mp:
        rep.ok(rule, DT)
        return
    got = rank.each(g, es, T)
    if rep.check(got, rule, DT, "%s: the tasks of the working table are not returned" % DT):
        for at, rs in got:
            rep.check(not rs, rule, DT + ":each", "%s:%s: %s" % (DT, g.nodes[at].line, "; ".join(rs)))
    for e in es:
        subs = [x for a in e.args if isinstance(a, V) for x in deep(g, a)]
        el = lambda v: any(y.op == "elem" and T(y.a[0]) for y in q.subs(v))
        rep.check(any(x.op == "call" and x.a[0].endswith("convSentenceTermPunctToStr") and el(x.a[1]) for x in subs), rule, DT + ":sentence", "%s: the sentence of the task isn't in what is shown" % e.where)
        rep.check(any(x.op == "call" and x.a[0].endswith("taskCalcCredit") and el(x.a[1]) and path(x.a[2] if x.a[2].op != "call" else x.a[2].a[1])[1][-1:] == ["cycleCounter"] for x in subs), rule, DT + ":credit", "%s: the credit of the task isn't in what is shown" % e.where)


def deep(g, v, seen=None):
    seen = set() if seen is None else seen
    for x in q.subs(v):
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "phi" and x.id in g.phis:
            for p, w in g.phis[x.id]:
                yield from deep(g, w, seen)


# ---------------------------------------------------------------- sessions
class Reader:
    """how lines are read: by read_line into a buffer, or by iterating lines"""

    def __init__(self, g):
        self.g = g
        self.calls = [e for e in g.events("call") if e.node.facts and e.name.split("::")[-1] == "read_line"]
        self.iters = [] if self.calls else [e for e in g.events("call") if e.node.facts and e.name == "Iterator::next" and self.lines(e.args[0])]
        self.nodes = {e.node.id for e in self.calls + self.iters}
        self.res = {e.val.id for e in self.calls} | {v.id for v in g.pool.t.values() if v.op == "elem" and self.lines(v.a[0])}

    def lines(self, v, depth=6):
        while isinstance(v, V) and depth:
            depth -= 1
            if v.op == "call" and v.a[0].split("::")[-1] == "lines":
                return True
            if v.op == "call" and v.a[0] in ("Iterator::map_while", "Iterator::flatten", "Iterator::filter_map", "IntoIterator::into_iter", "Iterator::by_ref") or v.op in ("mapped", "filtered", "okval", "vfield"):
                v = v.a[1] if v.op == "call" else v.a[0]
                continue
            if v.op == "phi" and v.id in self.g.phis:
                return any(self.lines(w, depth) for p, w in self.g.phis[v.id])
            if v.op == "agg" and len(v.a) > 3:
                v = v.a[3]
                continue
            return False
        return False

    def is_res(self, v):
        return isinstance(v, V) and (v.id in self.res or bool(self.iters) and v.op == "elem" and self.lines(v.a[0]))

    def end(self, f, p):
        """True: at the end of the input, False: not at it, None: not said"""
        if self.iters:
            return (not p) is (f.a[1] == "Some") if f.op == "isv" and f.a[0].op == "next" and any(f.a[0] is e.val for e in self.iters) else None
        if f.op == "bin":
            n = [x for x in f.a[1:] if isinstance(x, V) and x.op in ("vfield", "okval") and self.is_res(x.a[0])]
            k = [loops.ival(x) for x in f.a[1:] if isinstance(x, V) and loops.ival(x) is not None]
            if n and k:
                if f.a[0] in ("Eq", "Ne") and k[0] == 0:
                    return p is (f.a[0] == "Eq")
                if f.a[0] == "Lt" and k[0] == 0 and f.a[2] in n:
                    return not p
                if f.a[0] == "Lt" and k[0] == 1 and f.a[1] in n or f.a[0] == "Le" and k[0] == 0 and f.a[1] in n:
                    return p
                if f.a[0] == "Le" and k[0] == 1 and f.a[2] in n:
                    return not p
        return None

    def err(self, f, p):
        """True: reading failed, False: it didn't"""
        if f.op == "isv" and self.is_res(f.a[0]) and f.a[1] in ("Ok", "Err"):
            return p is (f.a[1] == "Err")
        if f.op == "isok" and self.is_res(f.a[0]):
            return not p
        return None

    def skip(self, f, p):
        """True: the text of the line is invalid"""
        if f.op in ("isv", "bin") and any(x.op == "call" and x.a[0].endswith("Error::kind") for x in q.subs(f)):
            t = f.a[1] if f.op == "isv" else next((x.a[1] for x in f.a[1:] if isinstance(x, V) and x.op == "agg"), None)
            if t in ("InvalidData", "Interrupted"):
                return p if f.op == "isv" or f.a[0] == "Eq" else not p
        return None

    def text(self, v):
        """v: the line read"""
        while isinstance(v, V) and v.op == "call" and v.a[0] in TRIM:
            v = v.a[1]
        if self.calls:
            return any(v is e.args[1] for e in self.calls)
        return v.op in ("vfield", "okval") and self.is_res(v.a[0]) or self.is_res(v)


def session(rep, fn, what):
    g = rep.graph(fn, atoms=[FAC])
    rd = Reader(g)
    fac = [e for e in g.events("call", FAC) if e.node.facts]
    rep.floor("lines of %s" % what, min(len(rd.nodes), len(fac)), 1, "reading of lines and handing them to the facade in " + fn)
    if not rd.nodes or not fac:
        return
    F, rets = {e.node.id for e in fac}, {n.id for n in g.root.retnodes}

    def quit(f, p):
        if f.op == "un" and f.a[0] == "Not":
            return quit(f.a[1], not p)
        if f.op == "bin" and f.a[0] in ("Eq", "Ne") and any(q.is_const(x, True, False) for x in f.a[1:]):
            c = next(x for x in f.a[1:] if q.is_const(x, True, False))
            o = next(x for x in f.a[1:] if x is not c)
            return quit(o, p is ((f.a[0] == "Eq") is c.a[1]))
        if f.op == "out" and f.a[0].op == "call" and f.a[0].a[0] == FAC or f.op == "param" and f.a[1] == "quit":
            return p
        return None
    # what is handed over
    for e in fac:
        rep.check(e.args[0].op == "param", "lines are given to the reasoner", fn + ":nar", "%s: the line is given to %s" % (e.where, show(e.args[0], 3)))
        alts = q.alts(g, e.node, e.args[1])
        for v, d in alts:
            if rd.text(v):
                continue
            last = all(x.op == "const" and x.a[1] == "" or rd.text(x) for x in leaves(g, v))
            ok = last and (v.op == "phi" or v.op == "const") and any(blank(rd, f, p) for f, p in d)
            rep.check(ok, "the line read is what is handed over", fn, "%s: handed over is %s [%s]" % (e.where, show(v, 3), q.fmt(d)))
        rep.check(any(rd.text(v) for v, d in alts), "the line read is what is handed over", fn + ":some", "%s: the line read isn't handed over" % e.where)
    for r in rd.nodes:
        at = "%s:%s" % (fn, g.nodes[r].line)
        x = walk(g, r, F, rd.nodes | rets, lambda f, p: rd.end(f, p) is True or rd.err(f, p) is True)
        rep.check(x is None, "every line read is handed over", at, "%s:%s: a line which was read may not be given to the facade" % (fn, x))
        x = walk(g, r, set(), rd.nodes | F, lambda f, p: rd.end(f, p) is False or rd.err(f, p) is True)
        rep.check(x is None, "the end of the input ends it", at, "%s:%s: it goes on at the end of the input" % (fn, x))
        x = walk(g, r, set(), rd.nodes | F, lambda f, p: rd.end(f, p) is True or rd.err(f, p) is False or rd.skip(f, p) is True)
        rep.check(x is None, "an error which stays ends it", at, "%s:%s: it goes on reading if reading isn't possible" % (fn, x))
        x = walk(g, r, rd.nodes, rets, lambda f, p: rd.end(f, p) is True or rd.err(f, p) is False or rd.skip(f, p) is False)
        rep.check(x is None, "a line which is no valid text is skipped", at, "%s:%s: it ends at a line which isn't valid text" % (fn, x))
    for f0 in F:
        at = "%s:%s" % (fn, g.nodes[f0].line)
        x = walk(g, f0, set(), rd.nodes | F, lambda f, p: quit(f, p) is False)
        rep.check(x is None, "quit ends it", at, "%s:%s: it goes on after quit was requested" % (fn, x))
        x = walk(g, f0, rd.nodes, rets, lambda f, p: quit(f, p) is True)
        rep.check(x is None, "only quit or the end of the input ends it", at, "%s:%s: it ends though nothing asked for it" % (fn, x))
    # nothing of earlier lines is left in the buffer
    for e in rd.calls:
        b = e.args[1]
        body = [l for l in loops.loops(g) if e.node.id in l.body]
        fresh = {b.a[-1][1]} if b.op == "new" else set()
        fresh |= {x.node.id for x in g.events("call") if x.name in ("String::clear", "String::truncate") and x.args and x.args[0] is b}
        if body:
            x = walk(g, e.node.id, fresh, {e.node.id})
            rep.check(x is None, "nothing of earlier lines is left in the buffer", fn, "%s: the line is read behind what is in the buffer" % e.where)
    return g, rd, fac


TRIM = ("str::trim", "str::trim_end", "str::trim_end_matches", "Clone::clone", "ToString::to_string", "str::to_string", "String::from", "Deref::deref", "str::to_owned", "ToOwned::to_owned", "String::as_str")


def leaves(g, v, seen=None):
    seen = set() if seen is None else seen
    if v.op == "phi" and v.id in g.phis:
        if v.id in seen:
            return []
        seen.add(v.id)
        return [x for p, w in g.phis[v.id] for x in leaves(g, w, seen)]
    if v.op == "call" and v.a[0] in TRIM:
        return leaves(g, v.a[1], seen)
    return [v]


def blank(rd, f, p):
    if f.op == "bin" and f.a[0] in ("Eq", "Ne"):
        return p is (f.a[0] == "Eq") and any(rd.text(x) for x in f.a[1:]) and any(q.is_const(x, "") for x in f.a[1:]) or p is (f.a[0] == "Eq") and any(loops.len_of(x) is not None and rd.text(loops.len_of(x)) for x in f.a[1:]) and any(loops.ival(x) == 0 for x in f.a[1:])
    return p and f.op == "call" and f.a[0] in ("str::is_empty", "String::is_empty") and rd.text(f.a[1])


CUTS = ("str::trim", "str::trim_end", "str::trim_right", "str::trim_end_matches", "str::trim_matches", "str::trim_right_matches", "str::lines", "str::split", "str::strip_suffix", "str::split_terminator", "str::replace", "str::trim_ascii_end", "str::trim_ascii")


def breaks(v):
    """v tests for line breaks: the characters tested, else none"""
    if v.op == "bin" and v.a[0] in ("Eq", "Ne") or v.op == "call" and v.a[0] in ("str::ends_with", "slice::ends_with", "PartialEq::eq"):
        cs = "".join(str(x.a[1]) for x in q.subs(v) if x.op == "const" and isinstance(x.a[1], str))
        return cs if cs and not cs.strip("\r\n") else ""
    return ""


def unbroken(rep, g, es, texts, what, start=None):
    """the line break isn't part of the line compared (es: events, texts(e): the line in them); and only it is taken off"""
    rule = "the line break isn't part of the line"
    no = lambda v, p: "\n" in breaks(v) and p is (v.op == "bin" and v.a[0] == "Ne") or v.op == "isv" and p is (v.a[1] != "Some") and any(x.op == "call" and "chars" in str(x.a[0]).lower() for x in q.subs(v))
    cut = {e.node.id for e in g.events("call") if e.node.facts and e.name in ("String::pop", "String::truncate", "String::retain", "String::drain") + CUTS}
    for e in es:
        x = walk(g, g.root.meta[0].id if start is None else start, cut, {e.node.id}, no)
        rep.check(x is None, rule, what, "%s: the line may still have its line break" % e.where)
    for e in g.events("call"):
        if e.name == "String::pop" and e.node.facts and any(e.args[0] is x for f in es for t in texts(f) for y in leaves0(g, t) for x in q.subs(y)):
            ok = all(any(breaks(v) and p is not (v.op == "bin" and v.a[0] == "Ne") for v, p in d) for d in g.facts_at(e.node))
            rep.check(ok, rule, what + ":pop", "%s: something else than the line break may be taken off the line" % e.where)


def leaves0(g, v, seen=None):
    """v through phis"""
    seen = set() if seen is None else seen
    if v.op == "phi" and v.id in g.phis:
        if v.id in seen:
            return []
        seen.add(v.id)
        return [x for p, w in g.phis[v.id] for x in leaves0(g, w, seen)]
    return [v]


def interactive(rep):
    s = session(rep, TOUT, "a session")
    if s is None:
        return
    g, rd, fac = s
    if rd.calls:
        for e in rd.calls:
            unbroken(rep, g, fac, lambda e: [e.args[1]], TOUT, e.node.id)
    vals = {e.val.id for e in fac}
    prints = [e for e in g.events("call") if e.node.facts and e.name.endswith(("::_print", "write_fmt", "write_all"))]
    mine = lambda v: any(x.op == "elem" and any(y.id in vals for y in q.subs(x)) for x in q.subs(v))
    es = [e for e in prints if any(isinstance(a, V) and mine(a) for a in e.args)]
    joined = [e for e in prints if e not in es and any(isinstance(a, V) and any(x.op == "call" and x.a[0].endswith(("::join", "::concat")) and any(y.id in vals for y in q.subs(x)) for x in q.subs(a)) for a in e.args)]
    rule = "what a line returns is shown"
    if joined:
        rep.ok(rule, TOUT)
        return
    got = rank.each(g, es, lambda v: v.id in vals)
    if rep.check(got, rule, TOUT, "%s: the lines returned by the facade are not printed" % TOUT):
        for at, rs in got:
            rep.check(not rs, rule, "%s:each" % TOUT, "%s:%s: %s" % (TOUT, g.nodes[at].line, "; ".join(rs)))
        ids = {at for at, rs in got}
        for e in fac:
            x = walk(g, e.node.id, ids, rd.nodes | {n.id for n in g.root.retnodes})
            rep.check(x is None, rule, TOUT + ":path", "%s:%s: what was returned may not be printed" % (TOUT, x))


def program(rep):
    """the interactive mode of the program"""
    b = rep.bin
    if b is None or "main" not in b.fns:
        rep.bad("interactive mode", "main", "the program has no main function")
        return
    import vg
    g = vg.Graph(b, "main", atoms=[])
    rep.analysed.add("bin::main")
    fl = [e for e in g.events("call", FILE) if e.node.facts]
    it = [e for e in g.events("call", TOUT) if e.node.facts]
    mode = lambda f, p: f.op == "bin" and f.a[0] in ("Eq", "Ne") and any(q.is_const(x, "it") for x in f.a[1:]) and (p is (f.a[0] == "Eq"))
    other = lambda f, p: f.op == "bin" and f.a[0] in ("Eq", "Ne") and any(q.is_const(x, "it") for x in f.a[1:]) and (p is not (f.a[0] == "Eq"))
    if not rep.check(it, "interactive mode", "session", "main: no session is started"):
        return
    nars = [e.args[0] for e in it]
    one = {x.id for n in nars for x in leaves(g, n)}
    rep.check(len(one) == 1, "interactive mode", "reasoner", "main: the reasoner of the session isn't the one which read the files")
    pre = [e for e in fl if any(e.args[0] is n for n in nars)]
    rep.check(pre, "interactive mode", "files", "main: no file is read by the reasoner of the session")
    P, I = {e.node.id for e in pre}, {e.node.id for e in it}
    q_ = lambda f: f.op == "out" and f.a[0].op == "call" and f.a[0].a[0] == FILE
    entry = g.root.meta[0].id
    x = walk(g, entry, I, {n.id for n in g.root.retnodes}, lambda f, p: other(f, p) or q_(f) and p)
    # (only what is known to be the mode "it")
    its = [n.id for n in g.nodes if n.facts for y, lab in n.succ if any(mode(f, p) for f, p in g.edge_facts(n, lab) or [])]
    rep.check(its, "interactive mode", "it", "main: the mode 'it' isn't known")
    for u in its:
        x = walk(g, u, I, {n.id for n in g.root.retnodes}, lambda f, p: other(f, p) or q_(f) and p)
        rep.check(x is None, "the session follows the files", "main", "main:%s: no session may be started though quit wasn't requested" % x)
    for f0 in P:
        x = walk(g, f0, set(), P | I, lambda f, p: q_(f) and not p)
        rep.check(x is None, "quit in a file ends the program", "main", "main:%s: it goes on after quit was requested by a file" % x)
    for i in I:
        rep.check(not any(p in reach(g, i) for p in P), "the session follows the files", "order", "main: a file is read after the session")
    rule = "every file given is read"
    for e in pre:
        k = offsets(g, e.args[1])
        rep.check(k is not False, rule, "main:%s" % e.line, "%s: the files read are %s" % (e.where, show(e.args[1], 8)))
        ls = [l for l in loops.loops(g) if e.node.id in l.body]
        if rep.check(ls, rule, "main:loop", "%s: one file is read only" % e.where):
            l = min(ls, key=lambda l: len(l.body))
            x = walk(g, l.head, P, {l.head}, lambda f, p: False)
            rep.check(x is None, rule, "main:each", "main:%s: a file may be left out" % x)
            x = walk(g, e.node.id, {l.head}, I, lambda f, p: False)
            rep.check(x is None, rule, "main:all", "main:%s: files may be left out" % x)
    wr = {e.node.id for e in g.events() if e.kind in ("write", "lwrite") and e.node.facts and ("procMem" in str(e.args[0].a) or "procMem" in show(e.args[0], 6)) and show(e.val if e.val is not None else e.args[-1], 8).endswith(".procNar.evidenceMem")}
    for u in its:
        x = walk(g, u, wr, P | I, other)
        rep.check(x is None, "questions about procedural knowledge have its memory", "main", "main:%s: the procedural memory isn't known to the declarative reasoner of the session" % x)


def reach(g, s):
    seen, todo = set(), [s]
    while todo:
        for x, lab in g.nodes[todo.pop()].succ:
            if x not in seen and g.nodes[x].facts:
                seen.add(x)
                todo.append(x)
    return seen


def lin(v):
    """(base, offset)"""
    if v.op == "cast":
        return lin(next(x for x in v.a if isinstance(x, V)))
    if loops.ival(v) is not None:
        return None, loops.ival(v)
    if v.op == "bin" and v.a[0] in ("Add", "Sub"):
        a, b = lin(v.a[1]), lin(v.a[2])
        if a and b and v.a[0] == "Add" and (a[0] is None or b[0] is None):
            return a[0] or b[0], a[1] + b[1]
        if a and b and v.a[0] == "Sub" and b[0] is None:
            return a[0], a[1] - b[1]
        return None
    return v, 0


def offsets(g, v):
    """False: known not to be the arguments from the third on; True: they are; None: unknown"""
    for x in q.subs(v):
        if x.op in ("nth", "idx") and any(y.op == "call" and y.a[0] == "env::args" for y in q.subs(x.a[0])):
            i = lin(x.a[1])
            if i is None or i[0] is None or i[0].op != "elem" or i[0].a[0].op != "agg" or not str(i[0].a[0].a[0]).endswith("Range"):
                return False if i is not None and i[0] is None else None
            s, e = lin(i[0].a[0].a[3]), lin(i[0].a[0].a[4])
            if s is None or e is None or s[0] is not None or e[0] is None or loops.len_of(e[0]) is None:
                return None
            return i[1] + s[1] == 2 and i[1] + e[1] == 0
        if x.op == "call" and x.a[0] == "Iterator::skip" and any(y.op == "call" and y.a[0] == "env::args" for y in q.subs(x.a[1])):
            return loops.ival(x.a[2]) == 2
    return None


def check(rep):
    facade(rep)
    shown(rep)
    interactive(rep)
    s = session(rep, FILE, "a file")
    if s:
        g = s[0]
        op = [e for e in g.events("call") if e.node.facts and e.name in ("File::open", "fs::read_to_string", "fs::read", "OpenOptions::open")]
        rep.check(op and all(any(x.op == "param" and x.a[1] == "path" for a in e.args for x in q.subs(a)) for e in op), "the file named is read", FILE, "%s: the file named isn't the one read" % FILE)
    program(rep)
