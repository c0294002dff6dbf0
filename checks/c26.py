"""C26: no operation of the reasoner can fail at run time."""
import adt
import best
import loops
import partial
import q
import rank
import zone
from c13 import is_field
from c15 import call, payload
from c22 import fnum
from vg import show, kids, V

LEVEL = "other"
RULE = ("Every operation of the reasoner's functions which can fail is an obligation: an element by its index, a range of a collection, removal at an index, a random number from "
        "a range, an unsigned difference, the content of an option. It is discharged by the facts of the paths to it in a difference-bound domain (indices, lengths, counters, random "
        "numbers; elements of loops, minima, halves), or by an invariant of the data structure (compound terms, groups of goals and evidence bases aren't empty, there is a batch for "
        "every depth and a worker; judgements and goals have truth values, questions don't; rules count evidence). What a function expects of its arguments is an obligation of "
        "each call. An obligation is violated if nothing on a path to it concerns the index and the length (or the option), or if what does is not enough.")
ASSUME = ["invariants of the data structures: lists in terms have an element, sequences two (C22, C23: the grammar yields no others; C06, C15, C18: nor do inference and learning), groups of goals have an entry (C19), an evidence base an id (C03, C04)",
          "a worker thread receives what is sent to it (C21)", "numbers compared with partial_cmp aren't NaN (C01)", "the explicit checks by which functions panic on what C05-C19 exclude are not obligations here"]
MODS = ("Nar", "NarGoalSystem", "NarInfProcedural", "NarMem", "NarProc", "NarSentence", "NarStamp", "NarUnify", "NarWorkingCycle", "Term", "TermApi", "TermUtils", "Tv", "BinSearch", "Utils", "OpLib")
VCUT = {"Vec::remove": 1, "Vec::swap_remove": 1, "Vec::drain": None, "Vec::split_off": 0, "slice::split_at": 0, "Vec::split_at": 0, "Vec::insert": 0, "slice::swap": 1}
# what a function expects of an argument (1-based): that many elements; an option which is Some
PRE = {"BinSearch::binSearch": {1: 1}, "NarWorkingCycle::task2SelByCreditRandom": {2: 1}, "NarWorkingCycle::taskSelByCreditRandom": {2: 1}, "NarWorkingCycle::conceptSelByAvRandom": {2: 1},
       "NarWorkingCycle::taskSelByCreditTop": {1: 1}, "NarProc::try_build_implSeq": {2: 3}, "NarProc::findMinTableIdx": {2: 1}}
SOME = {"NarProc::narStep1": 2}
# these return an index into that argument
SEL = {"NarWorkingCycle::task2SelByCreditRandom": 2, "NarWorkingCycle::taskSelByCreditRandom": 2, "NarWorkingCycle::conceptSelByAvRandom": 2, "NarWorkingCycle::taskSelByCreditTop": 1}
# sentences of any punctuation are handed to these
ANY = {"NarSentence::convSentenceTermPunctToStr", "NarMem::storeInConcepts", "NarWorkingCycle::memAddTask", "NarWorkingCycle::qaTryAnswer2"}
LISTS = ("Seq", "SetInt", "SetExt", "Conj", "Par", "Prod", "Img", "IntInt", "ExtInt")
NONEMPTY = ("entries", "batchesByDepth", "storeWorkersTx", "deriverWorkersTx", "ids", "expIntervalsTable")
SENDS = ("SyncSender::send", "Sender::send", "PartialOrd::partial_cmp", "Receiver::recv", "JoinHandle::join", "Mutex::lock", "RwLock::read", "RwLock::write")


def last(n):
    return n.split("::")[-1]


def axiom(c):
    """least length of a collection which is part of a data structure"""
    if c.op == "vfield" and c.a[1] in LISTS:
        return 2 if c.a[1] == "Seq" else 1
    if c.op == "field" and c.a[1] in NONEMPTY:
        return 1
    return 0


class Z(zone.Zone):
    pre = {}

    def axiom(self, c):
        return self.pre.get(c.id) or axiom(c)

def unsigned(n, i):
    t = n.inst.fn.blocks[n.bb]["t"]
    o = t["ops"][i]
    ty = o.get("t") or o.get("pl", {}).get("t", "")
    return ty.startswith("u")



class Op:
    def __init__(self, kind, n, line, inst, text, v=None, c=None, i=None, k=1):
        self.kind, self.n, self.line, self.inst, self.text, self.v, self.c, self.i, self.k = kind, n, line, inst, text, v, c, i, k


def ops(g):
    for n in g.nodes:
        if not n.facts:
            continue
        for e in n.events:
            if e.kind != "call" or not e.name:
                continue
            nm, a = e.name, e.args
            if nm in partial.UNWRAP and a:
                yield Op("unwrap", n, e.line, e.inst, "%s of %s" % (last(nm), show(a[0], 5)), v=a[0])
            elif nm in ("Index::index", "IndexMut::index_mut") and len(a) > 1:
                yield Op("index", n, e.line, e.inst, "element %s of %s" % (show(a[1], 5), show(a[0], 4)), c=a[0], i=a[1], v=e)
            elif nm in VCUT and len(a) > 1:
                yield Op("index", n, e.line, e.inst, "%s %s of %s" % (last(nm), show(a[1], 5), show(a[0], 4)), c=a[0], i=a[1], k=VCUT[nm], v=e)
            elif last(nm) == "gen_range" and len(a) > 1:
                yield Op("draw", n, e.line, e.inst, "a number drawn from %s" % show(a[1], 5), i=a[1])
        if n.info and n.info[0] == "assert":
            msg, o = n.info[3], n.info[4]
            if msg.startswith("overflow:Sub") and len(o) == 2 and unsigned(n, 0):
                yield Op("sub", n, n.line, n.inst, "%s - %s" % (show(o[0], 4), show(o[1], 4)), c=o[0], i=o[1])
            elif msg.startswith("bounds") and len(o) == 2:
                yield Op("bounds", n, n.line, n.inst, "element %s of %s" % (show(o[1], 5), show(o[0], 4)), c=o[0], i=o[1])
            elif msg.startswith(("divzero", "remzero")):
                yield Op("div", n, n.line, n.inst, "%s divided by zero" % show(o[0], 4), v=n.info[1])


# ---------------------------------------------------------------- proofs
def zone_(g, d, n=None):
    z = Z(g, [])
    z.node = n
    z.d = d
    z.ne = [(f, p) for f, p in d if f.op == "bin" and (f.a[0] == "Eq" and not p or f.a[0] == "Ne" and p)]
    for f, p in d:
        z.fact(f, p)
    return z


def atleast(g, d, c, m, n=None):
    """c has at least m elements"""
    z = zone_(g, d, n)
    b = zone.base_of(c)
    t = tail(c)
    if t is not None:
        return z.within(t[1], t[0], m)
    if b.op == "phi" and b.id in g.phis:
        return all(atleast(g, dd, w, m) for pr, w in rank.settings(g, b) for dd in q._fs(g, g.OUT.get(pr) or []))
    z.about_len(c)
    z.tighten()
    return z.bound(0, z.length(c)) >= m


def tail(c):
    """(collection, start): c is what follows in it from there on"""
    b = zone.base_of(c)
    if b.op == "idx" and b.a[1].op == "agg" and last(b.a[1].a[0]) == "RangeFrom":
        return b.a[0], b.a[1].a[3]
    if b.op == "field" and str(b.a[1]) == "1" and b.a[0].op == "call" and last(b.a[0].a[0]) == "split_at":
        return b.a[0].a[1], b.a[0].a[2]
    return None


def inside(g, d, i, c, k, n=None, deep=3):
    """i + k <= length of c"""
    t = tail(c)
    if t is not None and loops.ival(i) is not None and zone_(g, d, n).within(t[1], t[0], k + loops.ival(i)):
        return True
    if zone_(g, d, n).within(i, c, k):
        return True
    v = zone.uncast(i)
    x, off = zone.lin(i)
    if x is None or deep == 0:
        return False
    if x.op == "call" and x.a[0] in SEL and same(x.a[SEL[x.a[0]]], c):
        return off == 0 and k <= 1 and atleast(g, d, c, 1, n)
    if off == 0 and x.op == "elem" and x.a[0].op in ("new", "agg", "phi", "call", "mapped"):
        its = items(g, x.a[0])
        if its:
            return all(w is None or inside(g, dd, w, c, k, e.node if e else None, deep - 1) for w, e in its for dd in (g.facts_at(e.node) if e else [d]))
    o = payload(x)
    if off == 0 and o is not None and is_field(o, "expDt") and is_field(zone.base_of(c), "expIntervalsTable"):
        return True     # (the interval learned: C17)
    r = best.root(x)
    if off == 0 and r is not x and r.op == "phi" and r.id in g.phis:
        ss = [(pr, project(g, x, r, w)) for pr, w in rank.settings(g, r) if not (w.op == "agg" and w.a[1] == "None")]
        return bool(ss) and all(inside(g, dd, w, c, k, None, deep - 1) for pr, w in ss for dd in q._fs(g, g.OUT.get(pr) or []))
    if off == 0 and x.op == "phi" and x.id in g.phis:
        if all(w is x or inside(g, dd, w, c, k, None, deep - 1) for pr, w in g.phis[x.id] for dd in q._fs(g, g.OUT.get(pr) or [])):
            return True
        ss = rank.settings(g, x)
        return bool(ss) and all(inside(g, dd, w, c, k, None, deep - 1) for pr, w in ss for dd in q._fs(g, g.OUT.get(pr) or []))
    return False


def project(g, x, r, w):
    """x, a part of r, of w instead"""
    if x is r:
        return w
    if x.op == "field":
        return g.field(project(g, x.a[0], r, w), x.a[1])
    if x.op == "vfield":
        return g.vfield(project(g, x.a[0], r, w), x.a[1], x.a[2])
    return x


def items(g, c, busy=()):
    """[(value put into c, event)]; None for what another rule is about"""
    if c.id in busy:
        return [(None, None)]
    busy = busy + (c.id,)
    if c.op == "agg" and c.a[0] == "array":
        out = [(w, None) for w in c.a[3:]]
    elif c.op == "new":
        out = []
    elif c.op == "call" and c.a[0] in g.crate.fns:
        return [(None, None)]
    else:
        return []
    for k, v, e in q.contents(g, c):
        if k == "item":
            out.append((v, e))
        else:
            r = items(g, zone.base_of(v), busy)
            if not r:
                return []
            out += r
    return [(None, e) if w is None or foreign(g, w, busy) else (w, e) for w, e in out]


def foreign(g, w, busy=()):
    """an element of what a function of the reasoner returns, or less than that"""
    w = zone.uncast(w)
    if w.op in ("idx", "elem") and w.a[0].op == "call" and w.a[0].a[0] in g.crate.fns:
        return True
    o = payload(w)
    if o is not None and o.op == "call" and last(o.a[0]) in ("min", "max"):
        its = items(g, zone.base_of(o.a[1]), busy)
        return bool(its) and all(x is None for x, _ in its)
    if w.op == "call" and last(w.a[0]) == "gen_range" and w.a[2].op == "agg" and last(w.a[2].a[0]) == "Range":
        return foreign(g, w.a[2].a[4], busy)
    return False


def same(a, b):
    return zone.base_of(a) is zone.base_of(b)


def index(g, d, c, i, k, n):
    if i.op == "agg" and "Range" in i.a[0]:
        kind, f = last(i.a[0]), i.a[3:]
        if kind == "RangeFull":
            return True
        if kind in ("RangeTo", "RangeFrom"):
            return inside(g, d, f[0], c, 0, n)
        if kind == "Range":
            return inside(g, d, f[1], c, 0, n) and (zone_(g, d, n).proves(f[0], f[1], 0) or loops.len_of(zone.uncast(f[1])) is not None and inside(g, d, f[0], loops.len_of(zone.uncast(f[1])), 0, n))
    if batch(g, c, i):
        return True
    return inside(g, d, i, c, 1 if k is None else k, n)


def batch(g, c, i):
    """there is a batch for each depth"""
    if not is_field(c, "batchesByDepth"):
        return False
    v = zone.uncast(i)
    if v.op == "call" and last(v.a[0]) == "min":
        for x in v.a[1:3]:
            y, off = zone.lin(x)
            if y is not None and is_field(y, "nMaxDepth") and off <= -1:
                return True
            y = loops.len_of(y) if y is not None else None
            if y is not None and is_field(y, "batchesByDepth") and off <= -1:
                return True
    return False


def drawn(g, d, r, n):
    a = b = None
    k = 1
    if r.op == "agg" and last(r.a[0]) == "Range":
        a, b = r.a[3], r.a[4]
    elif r.op == "call" and "RangeInclusive" in r.a[0]:
        a, b, k = r.a[1], r.a[2], 0
    else:
        return None
    x, y = fnum(a), fnum(b)
    if x is not None and y is not None:
        return x < y or k == 0 and x == y
    z = zone_(g, d, n)
    if z.proves(a, b, k):
        return True
    c = loops.len_of(zone.uncast(b))
    return c is not None and x == 0 and atleast(g, d, c, k, n)


def ask(d, x):
    """what is known of the punctuation of x: a set of (punctuation, polarity)"""
    out = set()
    for f, p in d:
        if f.op == "isv" and (is_field(f.a[0], "punct") and f.a[0].a[0] is x or f.a[0] is x):
            out.add((f.a[1], p))
        if f.op == "bin" and f.a[0] in ("Eq", "Ne"):
            for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if (is_field(a, "punct") and a.a[0] is x or a is x) and b.op == "agg":
                    out.add((b.a[1], p is (f.a[0] == "Eq")))
    return out


def has_tv(g, d, x, fn):
    k = ask(d, x)
    if ("QUESTION", True) in k:
        return False
    if k & {("QUESTION", False), ("JUGEMENT", True), ("GOAL", True)}:
        return True
    if any(is_field(y, "questionTasks") for y in q.subs(x)):
        return False
    if x.op == "agg" and "Sentence" in x.a[0]:
        fs = dict(zip(x.a[2], x.a[3:]))
        pu = fs.get("punct")
        return not (pu is not None and pu.op == "agg" and pu.a[1] == "QUESTION")
    return not (x.op == "param" and fn in ANY)


OPT = ("first", "last", "pop", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "reduce", "choose", "pop_front", "pop_back", "next", "first_mut", "last_mut", "split_first", "split_last")


def some(g, d, v, n, fn):
    """True / False / None: not decided"""
    if partial.some(d, v):
        return True
    if any(f.op == "isv" and f.a[0] is v and (f.a[1] in ("None", "Err")) is p for f, p in d if f.op == "isv"):
        return False
    if v.op == "agg":
        return v.a[1] in ("Some", "Ok")
    if v.op == "call":
        nm = v.a[0]
        if nm in SENDS or last(nm) in ("partial_cmp", "send"):
            return True
        if nm == "NarSentence::retTv":
            return has_tv(g, d, v.a[1], fn)
        if nm == "TermUtils::decodeOp":
            return is_op(g, d, v.a[1], n)
        if nm == "HashMap::get" or nm == "HashMap::get_mut":
            m, k = v.a[1], v.a[2]
            has = [p for f, p in d if f.op == "call" and last(f.a[0]) == "contains_key" and f.a[1] is m and f.a[2] is k]
            put = [e for e in g.events("call") if e.name == "HashMap::insert" and e.args[0] is m and e.args[1] is k]
            if True in has:
                return True
            asked = {e.node.id for e in g.events("call") if last(e.name or "") == "contains_key" and e.args[0] is m and e.args[1] is k}
            if put and n is not None and any(reaches(g, e.node.id, n.id, asked) for e in put):
                return True
            return None if put and False not in has else False
        if last(nm) in OPT and len(v.a) > 1:
            c = v.a[1]
            if isinstance(c, V):
                return atleast(g, d, c, 1, n) or (None if touched(d, [c]) or zone.base_of(c).op not in ("new", "field", "param", "vfield") else False)
        if last(nm) == "get" and len(v.a) > 2:
            return inside(g, d, v.a[2], v.a[1], 1, n) or None
        if nm == "NarInfProcedural::infGoalBelief" and any(call(x, "NarSentence::newEternalSentenceByTv") for x in q.subs(v)):
            return True     # (a chain of rules: C15)
        if nm in g.crate.fns:
            return False
        return None
    if v.op in ("first", "last") and isinstance(v.a[0], V):
        return atleast(g, d, v.a[0], 1, n) or (None if touched(d, [v.a[0]]) else False)
    if v.op == "nth":
        c, i = v.a[0], zone.uncast(v.a[1])
        s = partial.const(c.a[1]) if c.op == "call" and len(c.a) > 1 else None
        if isinstance(s, str) and i.op == "call" and last(i.a[0]) == "gen_range" and i.a[2].op == "agg":
            hi = loops.ival(i.a[2].a[4])
            return hi is None or hi <= len(s)
        return None
    if v.op == "param":
        if SOME.get(fn) and v is adt.param(g, SOME[fn]):
            return True
        if "Tv" not in g.root.fn.locals[v.a[0]]["t"]:
            return None
        pu = [adt.param(g, j) for j in range(1, v.a[0]) if "EnumPunctation" in g.root.fn.locals[j]["t"]][-1:]
        if not pu:
            return None
        k = {x for w in pu for x in ask(d, w)}
        return bool(k & {("QUESTION", False), ("JUGEMENT", True), ("GOAL", True)}) and ("QUESTION", True) not in k
    if v.op == "phi" and v.id in g.phis:
        return phis(g, d, v, n, fn)
    if v.op == "field" and v.a[1] in ("evi", "expDt"):
        return True
    return None


def reaches(g, a, b, without):
    seen, st = {a}, [a]
    while st:
        for s, _ in g.nodes[st.pop()].succ:
            if s == b:
                return True
            if s not in seen and s not in without:
                seen.add(s)
                st.append(s)
    return False


def phis(g, d, v, n, fn):
    """an option set together with another one which is known to be Some"""
    ins = dict(g.phis[v.id])
    for f, p in d:
        if f.op == "isv" and f.a[1] in ("Some", "None") and p is (f.a[1] == "Some") and f.a[0].op == "phi" and f.a[0].id in g.phis and f.a[0].a[-1][1] == v.a[-1][1]:
            if paired(g, v, f.a[0], set()):
                return True
    res = []
    for pr, w in rank.settings(g, v):
        for dd in q._fs(g, g.OUT.get(pr) or []):
            if w.op == "agg" and w.a[1] in ("None", "Err"):
                res.append(False if not touched(d, [v]) and q.compatible(d, dd) else None)
            elif w.op == "agg":
                res.append(True)
            else:
                res.append(some(g, dd, w, None, fn))
    return True if res and all(r is True for r in res) else None if touched(d, [v]) or None in res else False


def paired(g, a, b, seen):
    """where a is None b is"""
    if (a.id, b.id) in seen or a is b:
        return True
    seen.add((a.id, b.id))
    none = lambda w: w.op == "agg" and w.a[1] == "None"
    if none(b):
        return True
    if a.op == "agg":
        return not none(a)
    if a.op == "phi" and b.op == "phi" and a.a[-1][1] == b.a[-1][1]:
        B = dict(g.phis[b.id])
        return all(p in B and paired(g, w, B[p], seen) for p, w in g.phis[a.id])
    return False


def is_op(g, d, x, n, deep=3):
    if any(f.op == "isv" and f.a[1] == "Some" and p and call(f.a[0], "TermUtils::decodeOp") and f.a[0].a[1] is x for f, p in d):
        return True
    if call(x, "TermUtils::encodeOp") or any(call(y, "NarProc::try_build_implSeq") for y in q.subs(x)):
        return True
    o = payload(x)
    if o is not None and o.op == "phi" and o.id in g.phis and deep:
        return all(w.op == "agg" and (w.a[1] == "None" or all(is_op(g, dd, w.a[3], None, deep - 1) for dd in q._fs(g, g.OUT.get(pr) or []))) or w.op != "agg" and w.op != "phi" for pr, w in rank.settings(g, o))
    if x.op == "phi" and x.id in g.phis and deep:
        return all(is_op(g, dd, w, None, deep - 1) for pr, w in rank.settings(g, x) for dd in q._fs(g, g.OUT.get(pr) or []))
    return False


def roots(v):
    """what a number or collection depends on"""
    if not isinstance(v, V):
        return []
    x, _ = zone.lin(v)
    if x is None:
        return []
    c = loops.len_of(x)
    if c is not None:
        return [zone.base_of(c)]
    if x.op == "bin":
        return [r for k in x.a[1:3] for r in roots(k)]
    if x.op == "call" and last(x.a[0]) in ("min", "max", "gen_range", "saturating_sub"):
        return [r for k in x.a[1:3] if isinstance(k, V) for r in roots(k)] + [x]
    if x.op == "agg":
        return [r for k in x.a[3:] for r in roots(k)]
    o = payload(x)
    if o is not None and o.op == "call" and last(o.a[0]) in ("min", "max", "min_by", "max_by", "position"):
        return [zone.base_of(o.a[1])]
    return [zone.base_of(x)]


def touched(d, vs):
    """some fact is about one of vs"""
    ids = {zone.base_of(v).id for v in vs if v.op != "const"} | {v.id for v in vs if v.op != "const"}
    return any(y.id in ids for f, p in d if f.op in ("bin", "call", "isv", "any", "all") for y in q.subs(f))


def holds(g, op, d, fn):
    n = op.n
    if op.kind == "unwrap":
        return some(g, d, op.v, n, fn)
    if op.kind == "index":
        if not isinstance(op.i, V):
            return None
        if index(g, d, op.c, op.i, op.k, n):
            return True
        return verdict(g, d, [op.c] + roots(op.i), op)
    if op.kind == "bounds":
        c = loops.len_of(op.c) if loops.len_of(op.c) is not None else None
        if partial.inbounds(g, d, n, (op.c, op.i)) or zone_(g, d, n).proves(op.i, op.c, 1) or c is not None and index(g, d, c, op.i, 1, n):
            return True
        return verdict(g, d, roots(op.c) + roots(op.i), op)
    if op.kind == "sub":
        if partial.no_underflow(d, op.c, op.i) or zone_(g, d, n).proves(op.i, op.c, 0):
            return True
        c = loops.len_of(zone.uncast(op.c))
        k = loops.ival(op.i)
        if c is not None and k is not None and atleast(g, d, c, k, n):
            return True
        return verdict(g, d, roots(op.c) + roots(op.i), op)
    if op.kind == "draw":
        r = drawn(g, d, op.i, n)
        return r if r is not False else verdict(g, d, roots(op.i), op)
    if op.kind == "div":
        c = op.v
        if c.op == "const":
            return c.a[1] is not True
        x = [k for k in kids(c) if loops.ival(k) is None] if c.op == "bin" and c.a[0] == "Eq" else []
        if not x:
            return None
        if zone_(g, d, n).proves(zero(g), x[0], 1) or any(f is c and not p for f, p in d):
            return True
        return verdict(g, d, roots(x[0]), op)
    return None


def zero(g):
    return g.pool.mk("const", "usize", 0)


def verdict(g, d, rs, op):
    """not proven: violated if nothing is known of what it depends on, or if all that is known is understood"""
    rs = [r for r in rs if r is not None]
    if op is not None and any(isinstance(i, V) and strange(g, i) for i in (op.i, op.c)):
        return None
    if not touched(d, rs):
        # numbers which are moved by a loop
        return None if any(r.op == "phi" for r in rs) and op is not None and far(g, d, op) else False
    ids = {r.id for r in rs}
    for f, p in d:
        if f.op not in ("bin", "call", "isv", "any", "all") or not any(y.id in ids for y in q.subs(f)):
            continue
        if not understood(f, p, ids):
            return None
    return False


def strange(g, i):
    """a number from a call which isn't modelled"""
    x, _ = zone.lin(i)
    if x is None or loops.len_of(x) is not None:
        return False
    if x.op == "bin":
        return any(strange(g, k) for k in x.a[1:3])
    if x.op == "agg":
        return any(strange(g, k) for k in x.a[3:])
    return x.op == "call" and last(x.a[0]) not in ("gen_range", "min", "max", "saturating_sub", "len") and x.a[0] not in g.crate.fns


def understood(f, p, ids):
    """a comparison of linear terms: the zone has all of it"""
    if f.op == "call" and last(f.a[0]) == "is_empty":
        return True
    if f.op == "isv":
        o = f.a[0]
        if o.op == "next":
            return o.a[0].id in ids or o.a[0].op == "agg" or zone.base_of(o.a[0]).id in ids
        return not (o.id in ids)
    if f.op == "bin" and f.a[0] in ("Lt", "Le", "Eq", "Ne"):
        for k in f.a[1:3]:
            x, _ = zone.lin(k)
            if x is not None and (x.op == "bin" or x.op == "phi" and x.id not in ids and f.a[0] in ("Lt", "Le")):
                return False
        return f.a[0] in ("Lt", "Le") or p is (f.a[0] == "Eq") or any(loops.ival(k) is not None for k in f.a[1:3])
    return f.op == "call" and last(f.a[0]) != "contains_key"


def far(g, d, op):
    """there's no bound of the difference at all"""
    z = zone_(g, d, op.n)
    if not isinstance(op.i, V) or op.i.op == "agg" or op.c is None:
        return True
    x, _ = zone.lin(op.i)
    z.about(x)
    if op.kind in ("bounds", "sub"):
        y, _ = zone.lin(op.c)
        z.about(y)
        return z.bound(z.key(x), z.key(y)) <= -zone.BIG
    z.about_len(op.c)
    return z.bound(z.key(x), z.length(op.c)) <= -zone.BIG


# the functions the obligations are grouped by (others are part of their callers)
BASE = set("""
<NarGoalSystem::QaProcHandlerImpl~as~NarWorkingCycle::QHandler>::answer  <NarProc::TraceDefault~as~NarProc::Trace>::event_happened  <NarProc::TraceDefault~as~NarProc::Trace>::force_flush
<NarProc::TraceDefault~as~NarProc::Trace>::limit  <NarProc::TraceDefault~as~NarProc::Trace>::retImplName  <NarProc::TraceDefault~as~NarProc::Trace>::ret_last_events
<NarProc::TraceDefault~as~NarProc::Trace>::ret_view  <NarProc::TraceDefault~as~NarProc::Trace>::step  <OpLib::OpNop~as~NarProc::Op>::call  <OpLib::OpNop~as~NarProc::Op>::isBabbleable
<OpLib::OpNop~as~NarProc::Op>::retName  <OpLib::OpNop~as~NarProc::Op>::ret_evi_cnt  <OpLib::Op__nlp_rel_0~as~NarProc::Op>::call  <OpLib::Op__nlp_rel_0~as~NarProc::Op>::isBabbleable
<OpLib::Op__nlp_rel_0~as~NarProc::Op>::retName  <OpLib::Op__nlp_rel_0~as~NarProc::Op>::ret_evi_cnt  <OpLib::Op_nal9__exec_and_inject~as~NarProc::Op>::call
<OpLib::Op_nal9__exec_and_inject~as~NarProc::Op>::isBabbleable  <OpLib::Op_nal9__exec_and_inject~as~NarProc::Op>::retName  <OpLib::Op_nal9__exec_and_inject~as~NarProc::Op>::ret_evi_cnt
BinSearch::binSearch  Nar::createNar  Nar::cycle  Nar::inputN  Nar::inputT  Nar::inputT2  NarGoalSystem::addEntry  NarGoalSystem::addEntry2  NarGoalSystem::checkSetContains
NarGoalSystem::convProcTermToQaTerm  NarGoalSystem::dbg  NarGoalSystem::dbgRetGoalsAsText  NarGoalSystem::deriveGoalsHelper  NarGoalSystem::event_occurred  NarGoalSystem::is_desired
NarGoalSystem::limitMemory  NarGoalSystem::makeGoalSystem  NarGoalSystem::query  NarGoalSystem::query_by_antecedent  NarGoalSystem::query_by_consequence  NarGoalSystem::retEntries
NarGoalSystem::retSubSeqAsSeqOrTerm  NarGoalSystem::sample  NarGoalSystem::sampleAndInference  NarGoalSystem::selHighestExpGoalByState  NarInfProcedural::create_random_varname
NarInfProcedural::infGoalBelief  NarInfProcedural::infGoalDetach  NarInfProcedural::intro_vars  NarInfProcedural::intro_vars::helper  NarInfProcedural::matchandintro_var1
NarInfProcedural::matchandintro_var1_sentence  NarInfProcedural::retDesire  NarMem::limitMemory  NarMem::make  NarMem::ret_beliefs_by_terms_nonunique  NarMem::ret_beliefs_of_concept
NarMem::storeInConcepts  NarMem::storeInConcepts2  NarProc::calcIdxsOfOps  NarProc::checkIsCallableOp  NarProc::debugEvidence  NarProc::findMinTableIdx  NarProc::is_seq
NarProc::is_seqAndLastOp  NarProc::mem_add_evidence  NarProc::mem_add_evidence_internal  NarProc::mem_ret_evidence_all_nonunique  NarProc::narInit  NarProc::narStep0  NarProc::narStep1
NarProc::narStep1::cloneEvidence  NarProc::retImplSeqOp  NarProc::retPred  NarProc::retSeqCond  NarProc::retSeqCond2  NarProc::retSeqLast  NarProc::retSubj  NarProc::ret_op_by_name
NarProc::try_build_implSeq  NarSentence::calcUsageUsefulness  NarSentence::convSentenceTermPunctToStr  NarSentence::newEternalSentenceByTv  NarSentence::retConf  NarSentence::retFreq
NarSentence::retTv  NarSentence::shallowCopySentence  NarSentence::usageUpdate  NarStamp::checkOverlap  NarStamp::checkSame  NarStamp::convToStr  NarStamp::merge  NarStamp::newStamp
NarUnify::checkAssigned  NarUnify::checkSameVal  NarUnify::unify  NarUnify::unify2  NarUnify::unifySubst  NarWorkingCycle::conceptSelByAvRandom  NarWorkingCycle::createMem2
NarWorkingCycle::debugCreditsOfTasks  NarWorkingCycle::divCreditByComplexity  NarWorkingCycle::flushTasks  NarWorkingCycle::inf10  NarWorkingCycle::inf3  NarWorkingCycle::inf4
NarWorkingCycle::inf5  NarWorkingCycle::inf7  NarWorkingCycle::infBinary  NarWorkingCycle::infBinaryInner  NarWorkingCycle::infCompPred  NarWorkingCycle::infCompSubj
NarWorkingCycle::infGeneralizedJudgJudg  NarWorkingCycle::infGeneralizedJudgJudg::sel  NarWorkingCycle::infImplDed  NarWorkingCycle::infNeg  NarWorkingCycle::infSinglePremise
NarWorkingCycle::infSinglePremise2  NarWorkingCycle::infStructDecomposePar  NarWorkingCycle::infStructImg0  NarWorkingCycle::infStructImg1  NarWorkingCycle::infStructPred1
NarWorkingCycle::infStructProd0  NarWorkingCycle::infStructProd1  NarWorkingCycle::infStructSetExt  NarWorkingCycle::infStructSetInt  NarWorkingCycle::infStructSubj1
NarWorkingCycle::inference  NarWorkingCycle::inference2  NarWorkingCycle::memAddTask  NarWorkingCycle::memReviseBelief  NarWorkingCycle::populateTaskByTermLookup
NarWorkingCycle::qaTryAnswer  NarWorkingCycle::reasonCycle  NarWorkingCycle::task2SelByCreditRandom  NarWorkingCycle::taskCalcCredit  NarWorkingCycle::taskSelByCreditRandom
NarWorkingCycle::taskSelByCreditTop  NarWorkingCycle::tasksSelHighestCreditIdx  Term::calcComplexity  Term::checkEqTerm  Term::convTermToStr  Term::count_occurence_subterms
Term::retSubterms  Term::retSubterms2  Term::retUniqueSubterms  TermApi::conj  TermApi::p  TermApi::p2  TermApi::p3  TermApi::s  TermApi::seq  TermUtils::decodeOp  TermUtils::encodeOp
Tv::abd  Tv::c2w  Tv::calcExp  Tv::comp  Tv::convToStr  Tv::ded  Tv::dedGoal  Tv::ind  Tv::int  Tv::neg  Tv::or  Tv::rev  Tv::w2c  Utils::enforce
""".split())
BASE = {x.replace("~", " ") for x in BASE}
OPEN = set()


def grown(g, c):
    """the number of places where elements come into c"""
    k = len(c.a) - 3 if c.op == "agg" and c.a[0] == "array" else 0
    return k + len([e for e in g.events("call") if e.node.facts and e.args and e.args[0] is c and (e.name in q.PUSH or e.name in q.EXTEND or e.name in ("Vec::insert", "Vec::append"))])


def functions(c):
    return sorted(f for f in c.fns if "{" not in f and f.lstrip("<").split("::")[0] in MODS and "tests::" not in f and " as core::" not in f)


def analyse(rep, fn, atoms):
    g = rep.graph(fn, atoms=[a for a in atoms if a != fn], spawn_inline=True)
    Z.pre = {adt.param(g, i).id: m for i, m in PRE.get(fn, {}).items()}
    cnt = {}
    for op in ops(g):
        if op.inst.fn.path.lstrip("<").split("::")[0] not in MODS:
            continue
        key = "%s/%s" % (fn, op.kind)
        cnt[op.kind] = cnt.get(op.kind, 0) + 1
        for d in g.facts_at(op.n):
            r = holds(g, op, d, fn)
            if r is False:
                rep.bad("no-" + op.kind, key, "%s:%s: %s can fail [%s]" % (fn, op.line, op.text, q.fmt(d)))
                break
            if r is None:
                OPEN.add((fn, op.line, op.text))
        else:
            rep.ok("no-" + op.kind, key)
    if fn in SEL:
        arr = adt.param(g, SEL[fn])
        for r in g.root.retnodes:
            v = r.info[1]
            for d in g.facts_at(r):
                ok = inside(g, d, v, arr, 1, r)
                if not ok and verdict(g, d, [arr] + roots(v), Op("index", r, r.line, None, "", c=arr, i=v)) is None:
                    continue
                rep.check(ok, "selects", fn, "%s returns %s, which isn't known to be an index into %s [%s]" % (fn, show(v), show(arr), q.fmt(d)))
    # calls
    for e in g.events("call"):
        if e.name in PRE and e.node.facts:
            for i, m in PRE[e.name].items():
                if i - 1 >= len(e.args):
                    continue
                for d in g.facts_at(e.node):
                    c = e.args[i - 1]
                    if atleast(g, d, c, m, e.node):
                        rep.ok("called", e.name)
                    elif grown(g, zone.base_of(c)) < m and verdict(g, d, [zone.base_of(c)], None) is False:
                        rep.bad("called", e.name, "%s: %s is called with %s, which may have less than %d elements [%s]" % (e.where, e.name, show(c, 5), m, q.fmt(d)))
                        break
        if e.name in SOME and e.node.facts:
            v = e.args[SOME[e.name] - 1]
            rep.check(not (v.op == "agg" and v.a[1] == "None"), "called", e.name, "%s: %s is called with %s" % (e.where, e.name, show(v)))
    Z.pre = {}
    return cnt


def check(rep):
    fns = functions(rep.c)
    atoms = [f for f in fns if f in BASE]
    total = {}
    for fn in atoms:
        for k, v in analyse(rep, fn, atoms).items():
            total[k] = total.get(k, 0) + v
    rep.floor("obligations", sum(total.values()), 150, "operations which can fail")
