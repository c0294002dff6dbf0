"""C22: every line is answered, nothing malformed is accepted."""
import adt
import loops
import partial
import q
import rank
from vg import V, kids, show

LEVEL = "other"
RULE = ("No panic: every operation of the parser, the input facade and inputN which can panic (unwrap, expect, slicing or indexing by position, subtraction, cutting of strings/vectors, explicit panics) is discharged by what is known "
        "on every path to it about the same value (length, literal prefix/suffix, character boundary, variant). Termination: the grammar recurses only on what is left after a token, a loop of the parser takes a token or shortens the text. "
        "Acceptance: a sentence is returned only if the rest of the text is known to be blank, with the term parsed, the punctuation of the last character and the tense of the suffix; the text handed to the grammar is the line without "
        "just those parts; a truth value is built from the two numbers, known to be in range by positive comparisons (NaN), and its text is cut only then. inputN: what is input is what was parsed, nothing if it wasn't.")
ASSUME = ["nom's tag and take_while_m_n behave as documented", "the line fits into memory and the stack suffices for its nesting depth (n/a N01)"]
NP = "NarseseParser::"
PARSE, ENTRY, SUBJ, INN, FAC = NP + "parseNarsese", NP + "parseEntry", NP + "parseSubjOrPred", "Nar::inputN", "NarInputFacade::input"
FATOMS = ["NarProc::narStep0", "NarProc::narStep1", "Nar::cycle", "NarWorkingCycle::flushTasks", "NarWorkingCycle::debugCreditsOfTasks", "NarProc::debugEvidence", "NarModuleNlp3::process", INN]
SCOPE = ("NarseseParser::", "NarInputFacade::", "Nar::inputN", "NarInteractive::", "NarUtilReadn::")
PUNCT = {".": "JUGEMENT", "!": "GOAL", "?": "QUESTION"}
LOSSY = ("str::replace", "str::replacen", "str::to_lowercase", "str::to_uppercase", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::split", "str::rsplit", "str::split_at", "str::to_ascii_lowercase", "str::to_ascii_uppercase")
SAME = ("str::trim", "str::trim_end", "str::trim_start", "String::as_str", "str::to_string", "ToString::to_string", "Clone::clone", "String::from", "str::to_owned", "ToOwned::to_owned", "Into::into", "From::from", "AsRef::as_ref", "Deref::deref")


def char_of(v):
    """the character a constant pattern stands for"""
    c = v.a[1] if isinstance(v, V) and v.op == "const" else None
    if isinstance(c, bool) or c is None:
        return None
    if isinstance(c, int):
        return chr(c) if 0 <= c < 0x110000 else None
    c = str(c)
    if len(c) > 1 and c.isdigit() and v.a[0] in ("char", "u8", "u32"):
        return chr(int(c))
    return c


def fnum(v):
    try:
        return float(v.a[1]) if isinstance(v, V) and v.op == "const" and not isinstance(v.a[1], bool) else None
    except (ValueError, TypeError):
        return None


# ---------------------------------------------------------------- no panic
def nopanic(rep):
    seen, n = set(), 0
    scope = lambda p: p.split("::{")[0].startswith(SCOPE)
    roots = [(PARSE, [ENTRY]), (FAC, FATOMS), (INN, [PARSE, "Nar::inputT2"])]
    roots += [(f, [x for x in [SUBJ, "TermApi::s", "TermApi::seq", "TermApi::p", "TermApi::conj"] if x != f]) for f in sorted(rep.c.fns) if f.startswith(NP) and "{" not in f and "::tests" not in f and f != PARSE]
    for f in ("NarInteractive::runInteractive", "NarUtilReadn::readNarseseFile"):
        if f in rep.c.fns:
            roots.append((f, [FAC, INN, "Nar::cycle", "Nar::createNar"]))
    for f, atoms in roots:
        if f not in rep.c.fns or f != PARSE and f not in (FAC, INN) and f in seen:
            continue
        g = rep.graph(f, atoms=atoms)
        for kind, node, line, inst, ok, text in partial.operations(g, scope):
            seen.add(inst.fn.path.split("::{")[0])
            if inst is not g.root and inst.fn.path in rep.c.fns and f not in (PARSE, FAC, INN):
                continue
            n += 1
            bad = [d for d in g.facts_at(node) if not ok(d)]
            rep.check(not bad, "no-panic", "%s/%s" % (inst.fn.path, kind), "%s:%s: %s can panic: %s" % (inst.fn.path, line, kind, text))
        rep.ok("no-panic-function", f)
    rep.floor("no-panic", n, 4, "operations which can panic")


# ---------------------------------------------------------------- termination
def terminates(rep):
    if SUBJ not in rep.c.fns:
        return
    # the grammar: a recursive call gets what is left after something was taken
    g = rep.graph(SUBJ, atoms=["TermApi::s", "TermApi::seq", "TermApi::p", "TermApi::conj"])
    inp = adt.param(g, 1)
    n = 0
    for e in g.events("call"):
        if e.name not in (SUBJ, ENTRY):
            continue
        n += 1
        rep.check(taken(g, e.args[0], inp), "progress", "recursion", "%s: the grammar recurses on %s, from which nothing was taken" % (e.where, show(e.args[0], 6)))
    rep.floor("progress", n, 10, "recursions of the grammar")
    for f, atoms in ((SUBJ, None), (PARSE, [ENTRY])):
        h = g if f == SUBJ else rep.graph(f, atoms=atoms)
        for l in loops.loops(h):
            if l.nexts:
                continue
            rep.check(shrinks(h, l), "progress", "loop", "%s:%s: a loop of the parser neither takes a token nor shortens the text" % (h.nodes[l.head].inst.fn.path, h.nodes[l.head].line))
    # facade: loops which shorten the line
    h = rep.graph(FAC, atoms=FATOMS)
    for l in loops.loops(h):
        if not l.nexts:
            rep.check(shrinks(h, l), "progress", "facade-loop", "%s:%s: a loop neither iterates nor shortens the line" % (h.nodes[l.head].inst.fn.path, h.nodes[l.head].line))


def pairs(g, a, b):
    """constant pairs two values taken from a table stand for"""
    for x in q.subs(a):
        if x.op == "elem" and x.a[0].op == "agg" and x.a[0].a[0] == "array" and any(y is x for y in q.subs(b)):
            return [(q.subst(g, a, x, it), q.subst(g, b, x, it)) for it in x.a[0].a[3:]]
    return [(a, b)]


def taken(g, v, base, seen=None):
    """v is a rest of base after at least one token"""
    seen = seen if seen is not None else set()
    if v.id in seen:
        return True
    seen.add(v.id)
    if v is base:
        return False
    if v.op == "phi" and v.id in g.phis:
        return all(taken(g, w, base, seen) for _, w in g.phis[v.id])
    for x in q.subs(v):
        if x.op == "call" and x is not v and consumes(x):
            return True
    if v.op == "call" and consumes(v):
        return True
    if v.op == "vfield" and v.a[0].op == "call" and v.a[0].a[0] == "str::strip_prefix" and partial.lit(v.a[0].a[2]):
        return True
    ph = [x for x in q.subs(v) if x.op == "phi" and x.id in g.phis and x is not v]
    return bool(ph) and all(taken(g, x, base, seen) for x in ph)


def consumes(x):
    """a parser combinator which succeeds only if it takes something"""
    return any(y.op == "call" and (y.a[0].endswith("::tag") and len(y.a) > 1 and (partial.lit(y.a[1]) or 0) > 0 or y.a[0].endswith("take_while1") or y.a[0].endswith("take_while_m_n") and (partial.num(y.a[1]) or 0) > 0
                                 or y.a[0].endswith("complete::char")) for y in q.subs(x)) or x.op == "call" and x.a[0] in (SUBJ, ENTRY)


def shrinks(g, l):
    """something is taken / shortened in every iteration: on every path around the loop"""
    steps = set()
    for i in l.body:
        for e in g.nodes[i].events:
            if e.kind == "call" and (e.name in (SUBJ, ENTRY) or e.name in ("String::pop", "Vec::pop", "String::truncate", "Vec::truncate", "Iterator::next", "Vec::push")):
                if e.name != "Vec::push":
                    steps.add(i)
            if e.kind == "call" and e.name == "str::replace" and len(e.args) > 2:
                if all(partial.lit(x) is not None and partial.lit(y) is not None and partial.lit(y) < partial.lit(x) for x, y in pairs(g, e.args[1], e.args[2])):
                    steps.add(i)
            if e.kind == "call" and e.val is not None and isinstance(e.val, V) and e.name not in (SUBJ, ENTRY) and e.val.op == "call" and e.val.a[0] in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and consumes(e.val):
                steps.add(i)
            if e.kind == "call" and e.name in ("str::strip_suffix", "str::strip_prefix") and partial.lit(e.args[1]):
                steps.add(i)
            if e.kind == "call" and e.name in ("Index::index",) and e.args[1].op == "agg" and "Range" in e.args[1].a[0]:
                steps.add(i)
    # a cycle through the head which avoids all steps
    seen, todo = set(), [x for x, _ in g.nodes[l.head].succ if l.head not in steps]
    while todo:
        u = todo.pop()
        if u == l.head:
            return False
        if u in seen or u not in l.body or u in steps:
            continue
        seen.add(u)
        todo += [x for x, _ in g.nodes[u].succ]
    return True


# ---------------------------------------------------------------- acceptance
def blank(d, rest):
    for f, p in d:
        if not any(x is rest for x in q.subs(f)):
            continue
        if f.op == "call" and f.a[0] in ("str::is_empty", "String::is_empty") and p:
            return True
        if f.op == "bin" and f.a[0] in ("Eq", "Ne") and p == (f.a[0] == "Eq") and any(partial.num(x) == 0 or x.op == "const" and x.a[1] == "" for x in kids(f)):
            return True
        if f.op == "call" and f.a[0] in ("PartialEq::eq", "PartialEq::ne") and p == (f.a[0] == "PartialEq::eq") and any(x.op == "const" and x.a[1] == "" for x in f.a[1:]):
            return True
        if f.op == "all" and p or f.op == "any" and not p:
            return True
        if f.op == "isv" and (f.a[1] == "None") == p:
            return True
    return False


def last_chars(d):
    """characters the last character of the text is known to be"""
    out = {}
    for f, p in d:
        if f.op == "bin" and f.a[0] == "Eq" and p:
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                c = char_of(y)
                if c is not None and x.op != "const" and any(z.op == "call" and z.a[0] in ("str::chars", "str::bytes", "str::as_bytes", "str::char_indices", "String::pop") or z.op in ("last", "next") for z in q.subs(x)):
                    out.setdefault(x.id, set()).add(c)
        elif f.op == "call" and f.a[0] == "str::ends_with" and p and char_of(f.a[2]) is not None and len(char_of(f.a[2])) == 1:
            out.setdefault(f.a[1].id, set()).add(char_of(f.a[2]))
        elif f.op == "isv" and p and f.a[1] == "Some" and f.a[0].op == "call" and f.a[0].a[0] == "str::strip_suffix" and char_of(f.a[0].a[2]) is not None:
            out.setdefault(f.a[0].a[1].id, set()).add(char_of(f.a[0].a[2]))
    return out


def event_suffix(d):
    """whether the text is known (not) to end with the tense"""
    out = set()
    for f, p in d:
        x = f
        if f.op == "isv" and f.a[0].op == "call" and f.a[0].a[0] == "str::strip_suffix" and f.a[1] in ("Some", "None"):
            x, p = f.a[0], p == (f.a[1] == "Some")
        elif not (f.op == "call" and f.a[0] == "str::ends_with"):
            continue
        if x.a[2].op == "const" and str(x.a[2].a[1]).strip() == ":|:":
            out.add(p)
    return out


def accepted(g):
    """(where, Some(sentence), facts): where it is built, with what is known there"""
    out = []
    aggs = [e for e in g.events("agg") if e.val.op == "agg" and e.val.a[1] == "Some" and e.val.a[3].op == "agg" and len(e.val.a[3].a) == 7 and any(x.op == "call" and x.a[0] in (ENTRY, SUBJ) for x in q.subs(e.val))]
    for e in aggs:
        for d in g.facts_at(e.node):
            fs = e.val.a[3].a[3:]
            for pu, d1 in q.resolve(g, fs[2], d):
                for ev, d2 in q.resolve(g, fs[3], d1):
                    t = g.rebuild(e.val.a[3], e.val.a[3].a[:3] + (fs[0], fs[1], pu, ev))
                    out.append((e.where, g.rebuild(e.val, e.val.a[:3] + (t,)), d2))
    if not out or not all(any(blank(d, x) for f, _ in d for x in q.subs(f) if x.op == "field") for _, _, d in out):
        # built before it is known
        alt = [("parseNarsese:%s" % r.line, v, d) for r in g.root.retnodes for v, d in q.alts(g, r, r.info[1]) if not (v.op == "agg" and v.a[1] == "None")]
        return alt
    return out


def accepts(rep):
    rest_atoms = [ENTRY] + [f for f in (NP + "parseNarseseRetTv",) if f in rep.c.fns]
    g = rep.graph(PARSE, atoms=rest_atoms)
    n, kinds = 0, {}
    for where, v, d in accepted(g):
            if not (v.op == "agg" and v.a[1] == "Some" and v.a[3].op == "agg"):
                rep.bad("accept", "shape", "%s: parseNarsese returns %s, not a sentence" % (where, show(v, 6)))
                continue
            lc = last_chars(d)
            if any(len(s) > 1 for s in lc.values()) or len(event_suffix(d)) > 1:
                continue      # contradictory: paths merged
            n += 1
            term, tv, pu, ev = v.a[3].a[3:7]
            # the term is the one parsed, nothing is left
            src = [x for x in q.subs(term) if x.op == "call" and x.a[0] in (ENTRY, SUBJ)]
            if rep.check(bool(src), "accept", "term", "%s: the term returned is %s, not the one parsed" % (where, show(term, 6))):
                c = src[0]
                rests = [x for f, _ in d for x in q.subs(f) if x.op == "field" and x.a[1] in (0, "0") and payload_call(x) is not None and payload_call(x).a[0] == c.a[0]]
                ok = any(blank(d, x) for x in rests) or any(f.op == "isv" and f.a[0].op == "call" and "all_consuming" in str(f.a[0].a[0]) for f, _ in d)
                rep.check(ok, "accept", "complete", "%s: a sentence is accepted although what is left of the text isn't known to be blank [%s]" % (where, q.fmt(d)))
                rep.check(term.op == "field" and str(term.a[1]) == "1" and payload_call(term) is c, "accept", "term-part", "%s: the term returned is %s" % (where, show(term, 6)))
            # punctuation of the last character
            cs = {x for s in lc.values() for x in s if x in PUNCT}
            if pu.op == "agg":
                want = {c for c, k in PUNCT.items() if k == pu.a[1]}
                rep.check(cs == want, "punctuation", pu.a[1], "%s: %s for a text which ends with %s" % (where, pu.a[1], sorted(cs) or "anything"))
                kinds[pu.a[1]] = kinds.get(pu.a[1], 0) + 1
            # tense
            es = event_suffix(d)
            if ev.op == "const":
                rep.check(es == {ev.a[1] in (True, "true", 1)}, "tense", "event", "%s: isEvent=%s for a text of which it is known that it ends with :|: is %s" % (where, ev.a[1], es or "unknown"))
            else:
                rep.check(event_suffix([(ev, True)]) == {True}, "tense", "event", "%s: isEvent is %s" % (where, show(ev)))
    rep.floor("accept", n, 6, "accepted sentences")
    for k in PUNCT.values():
        rep.floor("punctuation", kinds.get(k, 0), 1, "sentences with " + k)
    texts(rep)


def payload_call(x):
    """the parser call of call.Ok.0.i"""
    x = x.a[0]
    while x.op in ("vfield", "field", "okval") or x.op == "call" and x.a[0] == "Result::ok":
        x = x.a[1] if x.op == "call" else x.a[0]
    return x if x.op == "call" else None


def positive(d, v, bound, low):
    """v >= bound (low) / v <= bound or v < bound is known by a comparison which NaN doesn't satisfy: None, 'Le', 'Lt'"""
    for f, p in d:
        if f.op == "bin" and f.a[0] in ("Le", "Lt") and p:
            a, b = (f.a[1], f.a[2]) if low else (f.a[2], f.a[1])
            k = fnum(a)
            if b is v and k is not None and (k >= bound if low else k <= bound):
                return "Lt" if f.a[0] == "Lt" or k != bound else "Le"
        if f.op == "bin" and f.a[0] in ("Le", "Lt") and not p and nan_free(d, v):
            # not (v < 0)  ->  0 <= v
            a, b = (f.a[1], f.a[2]) if low else (f.a[2], f.a[1])
            k = fnum(b)
            if a is v and k is not None and (k >= bound if low else k <= bound):
                return "Le" if f.a[0] == "Lt" and k == bound else "Lt"
        if f.op == "call" and f.a[0].endswith("::contains") and p and len(f.a) > 2 and f.a[2] is v and f.a[1].op == "agg" and "Range" in f.a[1].a[0]:
            k = [fnum(x) for x in f.a[1].a[3:5]]
            if len(k) == 2 and None not in k and (k[0] >= bound if low else k[1] <= bound):
                return "Le" if low or "Inclusive" in f.a[1].a[0] and k[1] == bound else "Lt"
        if f.op == "call" and f.a[0].endswith("RangeInclusive::contains") and p and len(f.a) > 2 and f.a[2] is v:
            k = [fnum(x) for y in q.subs(f.a[1]) for x in kids(y) if fnum(x) is not None]
            if len(k) >= 2 and (min(k) >= bound if low else max(k) <= bound):
                return "Le" if low or max(k) == bound else "Lt"
    return None


def nan_free(d, v):
    return any(f.op == "call" and f.a[1] is v and (f.a[0].endswith("is_nan") and not p or f.a[0].endswith("is_finite") and p) for f, p in d if f.op == "call" and len(f.a) > 1)


def part_of(v):
    """which of the two numbers of the text v is"""
    out = set()
    for x in q.subs(v):
        if x.op == "idx" and partial.num(x.a[1]) is not None and any(y.op == "call" and "split" in y.a[0] for y in q.subs(x.a[0])):
            out.add(partial.num(x.a[1]))
        if x.op == "cidx" and any(y.op == "call" and "split" in y.a[0] for y in q.subs(x.a[0])):
            out.add(x.a[1] if not x.a[2] else -x.a[1])
        if x.op == "field" and str(x.a[1]) in ("0", "1") and any(y.op == "call" and y.a[0] in ("str::split_once", "str::rsplit_once") for y in q.subs(x.a[0])):
            out.add(int(x.a[1]))
    return out


def valid_tv(d, f, c):
    out = []
    for v, hi, nm in ((f, "Le", "frequency"), (c, "Lt", "confidence")):
        k = fnum(v)
        if k is not None:
            if not (0 <= k <= 1 and (nm == "frequency" or k < 1)):
                out.append("the constant %s %s is out of range" % (nm, k))
            continue
        if positive(d, v, 0.0, True) is None:
            out.append("the %s isn't known to be at least 0" % nm)
        up = positive(d, v, 1.0, False)
        if up is None or nm == "confidence" and up != "Lt":
            out.append("the %s isn't known to be %s 1" % (nm, "at most" if nm == "frequency" else "below"))
    return out


def texts(rep):
    """the truth value and the text handed to the grammar"""
    g = rep.graph(PARSE, atoms=[ENTRY])
    partial.reversals(g)
    n = 0
    for e in g.events("agg"):
        if e.name != "Tv::Tv":
            continue
        n += 1
        a = e.val
        f, c = a.a[3], a.a[4]
        for d in g.facts_at(e.node):
            for why in valid_tv(d, f, c):
                rep.bad("truth-value", "range", "%s: %s" % (e.where, why))
            if fnum(f) is None and part_of(f) <= {0, 1}:
                sp = [x.a[0] for x in q.subs(f) if x.op in ("idx", "cidx") and x.a[0].op == "call" and "split" in x.a[0].a[0]]
                for s in sp:
                    two = any(y.op == "bin" and y.a[0] == "Eq" and p and any(partial.len_of(z, s) for z in kids(y)) and any(partial.num(z) == 2 for z in kids(y)) for y, p in d)
                    rep.check(two, "truth-value", "two-numbers", "%s: the text of the truth value isn't known to have just two parts" % e.where)
        if fnum(f) is None:
            pf, pc = part_of(f), part_of(c)
            rep.check(not pf or pf == {0}, "truth-value", "frequency", "%s: the frequency is the part %s of the text" % (e.where, sorted(pf)))
            rep.check(not pc or pc == {1}, "truth-value", "confidence", "%s: the confidence is the part %s of the text" % (e.where, sorted(pc)))
        rep.ok("truth-value", e.where)
    for t, v, e in q.writes(g, "f") + q.writes(g, "c"):
        nm = t.a[1] if t is not None and t.op == "field" else None
        if nm in ("f", "c") and isinstance(v, V):
            for d in g.facts_at(e.node):
                for why in valid_tv(d, v if nm == "f" else q_const(g), v if nm == "c" else q_const(g)):
                    rep.bad("truth-value", "range", "%s: %s" % (e.where, why))
    rep.floor("truth-value", n, 1, "truth values built")
    # the text
    line = adt.param(g, 1)
    m = 0
    for e in calls(g, ENTRY):
        m += 1
        REMOVED.clear()
        walk(rep, g, e.args[0], line, [g.facts_at(e.node)], set(), e)
        other = [x for x in g.events("call") if x.name in OTHERCUT]
        for k, what in (("tense", "the tense"), ("tv", "the truth value"), ("punct", "the punctuation")):
            if not other:
                rep.check(k in REMOVED, "text", "without-" + k, "%s: %s is never removed from the text which is read as a term, so such a sentence is never understood" % (e.where, what))
    rep.floor("text", m, 1, "texts parsed")


REMOVED = set()
OTHERCUT = {"String::truncate", "String::pop", "String::drain", "String::split_off", "str::split_at", "str::rsplit_once", "str::rsplitn", "str::get", "str::trim_end_matches", "Iterator::take", "String::remove", "String::replace_range",
            "str::split_at_checked", "str::split_once", "str::trim_matches", "String::retain"}


def q_const(g):
    return g.pool.mk("const", "f64", "0.5")


def walk(rep, g, v, line, known, seen, e):
    if (v.id, len(known)) in seen or any(k[0] == v.id for k in seen) and v.op == "phi":
        return
    seen.add((v.id, len(known)))
    if v is line or v.op == "const":
        return
    if v.op == "phi" and v.id in g.phis:
        for p, w in g.phis[v.id]:
            walk(rep, g, w, line, known + [q._fs(g, g.OUT.get(p) or [])], seen, e)
        return
    if v.op == "idx":
        ok, why = slice_ok(g, v, known)
        rep.check(ok, "text", "slice", "%s: the grammar gets %s: %s" % (e.where, show(v, 7), why))
        walk(rep, g, v.a[0], line, known, seen, e)
        return
    if v.op == "call":
        if v.a[0] == "str::replace" and len(v.a) > 3:
          for x, y in pairs(g, v.a[2], v.a[3]):
            a, b = char_of(x), char_of(y)
            rep.check((a, b) in (("* ", "*"), (" *", "*")), "text", "replace", "%s: %r is replaced by %r in the text" % (e.where, a, b))
        elif v.a[0] in LOSSY and not (v.a[0] == "str::trim_end_matches" and char_of(v.a[2]) in (" ", "\n", "\r")):
            rep.bad("text", "changed", "%s: the grammar gets the text changed by %s" % (e.where, v.a[0]))
        for x in v.a[1:2]:
            if isinstance(x, V):
                walk(rep, g, x, line, known, seen, e)
        return
    if v.op in ("vfield", "okval") and v.a[0].op == "call":
        c = v.a[0]
        if c.a[0] in ("str::strip_suffix", "str::strip_prefix"):
            s = char_of(c.a[2])
            REMOVED.add("tense" if s is not None and s.strip() == ":|:" else "punct" if s in PUNCT else None)
            rep.check(c.a[0] == "str::strip_suffix" and s is not None and (s.strip() in (":|:",) or s in PUNCT or s.strip() == "" or s == "}"), "text", "strip", "%s: %r is removed from the text" % (e.where, s))
        walk(rep, g, c.a[1], line, known, seen, e)
        return
    if v.op in ("field", "vfield", "okval") and isinstance(v.a[0], V):
        walk(rep, g, v.a[0], line, known, seen, e)


def slice_ok(g, v, known):
    s, r = v.a[0], v.a[1]
    if r.op != "agg" or "Range" not in r.a[0]:
        return False, "a part"
    fs = list(r.a[3:])
    if r.a[0].endswith("RangeFull"):
        return True, ""
    if r.a[0].endswith("RangeFrom"):
        return partial.num(fs[0]) == 0, "the start of the text is lost"
    if r.a[0].endswith("Range"):
        if partial.num(fs[0]) != 0:
            return False, "the start of the text is lost"
        fs = fs[1:]
    end = fs[0]
    sets = known + [g.facts_at(x) for x in made_at(g, v)]
    if partial.len_of(end, s):
        return True, ""
    if end.op == "bin" and end.a[0] in ("Sub", "SubUnchecked") and partial.len_of(end.a[1], s):
        k = partial.num(end.a[2])
        if k is None and end.a[2].op == "len":
            k = partial.lit(end.a[2].a[0])
        if partial.is_call(end.a[2], "char::len_utf8") and partial.last_char(end.a[2].a[1], s):
            REMOVED.add("punct")
            return True, ""
        if k == 1:
            REMOVED.add("punct")
            return True, ""       # the punctuation (that it is one is the rule 'punctuation')
        if k == 4:
            REMOVED.add("tense")
            ok = any(ds and all(True in event_suffix(d) and False not in event_suffix(d) for d in ds) for ds in sets)
            return ok, "4 bytes are cut although the text isn't known to end with ' :|:'"
        return False, "%s bytes are cut from the end" % k
    o = partial.payload_of(end)
    if o is not None and partial.is_call(o, "str::rfind") and o.a[1] is s:
        if char_of(o.a[2]) == "{":
            REMOVED.add("tv")
            ok = any(ds and all(tv_known(d) for d in ds) for ds in sets)
            return ok, "the text from '{' on is cut although it isn't known to be a valid truth value"
        return False, "cut at %r" % char_of(o.a[2])
    if end.op == "len" or partial.is_call(end, "str::len"):
        return True, ""
    return False, "cut at %s" % show(end, 4)


def made_at(g, v):
    return [n for n in g.nodes if any(e.val is v for e in n.events if e.kind == "call")]


def tv_known(d):
    """two parsed numbers are known to be in range"""
    vs = {}
    for f, p in d:
        for x in q.subs(f):
            if x.op in ("vfield", "okval") and x.a[0].op == "call" and x.a[0].a[0] == "str::parse":
                vs[x.id] = x
    vs = list(vs.values())
    return any(not valid_tv(d, a, b) for a in vs for b in vs if a is not b)


# ---------------------------------------------------------------- inputN
def inputs(rep):
    g = rep.graph(INN, atoms=[PARSE, "Nar::inputT2"])
    n = 0
    line = adt.param(g, 2)
    for e in calls(g, "Nar::inputT2"):
        n += 1
        for i, k in ((1, "0"), (2, "2"), (3, "1"), (4, "3")):
            for d in g.facts_at(e.node):
                for v, _ in q.resolve(g, e.args[i], d):
                    src = [x for x in q.subs(v) if x.op == "call" and x.a[0] == PARSE]
                    ok = bool(src) and src[0].a[1] is line and v.op == "field" and str(v.a[1]) == k
                    rep.check(ok, "input", "part", "%s: argument %d of inputT2 is %s, not part %s of the sentence parsed" % (e.where, i, show(v, 5), k))
        ok = all(any(f.op == "isv" and f.a[0].op == "call" and f.a[0].a[0] == PARSE and (f.a[1] == "Some") == p for f, p in d) for d in g.facts_at(e.node))
        rep.check(ok, "input", "parsed", "%s: a sentence is input although the line isn't known to be parsed" % e.where)
    rep.floor("input", n, 1, "inputs of parsed sentences")
    for r in g.root.retnodes:
        for v, d in q.alts(g, r, r.info[1]):
            ps = {p == (f.a[1] == "Some") for f, p in d if f.op == "isv" and f.a[0].op == "call" and f.a[0].a[0] == PARSE}
            if v.op == "const" and len(ps) == 1:
                rep.check((v.a[1] in (True, "true", 1)) == ps.pop(), "input", "result", "inputN returns %s for a line of which it is known that it was parsed: %s" % (v.a[1], not v.a[1]))
    # a parsed line is input: on every path
    for u, x, d in some_edges(g):
        if not passes(g, x, {e.node.id for e in calls(g, "Nar::inputT2")}):
            rep.bad("input", "every", "inputN:%s: a parsed sentence isn't input on a path" % g.nodes[u].line)


def calls(g, name):
    return list(g.events("call", name))


def some_edges(g):
    out = []
    for n in g.nodes:
        for x, lab in n.succ:
            for f, p in g.edge_facts(n, lab) or []:
                if f.op == "isv" and f.a[0].op == "call" and f.a[0].a[0] == PARSE and (f.a[1] == "Some") == p:
                    out.append((n.id, x, f))
    return out


def passes(g, start, nodes):
    seen, todo = set(), [start]
    ret = {r.id for r in g.root.retnodes}
    while todo:
        u = todo.pop()
        if u in nodes or u in seen:
            continue
        if u in ret:
            return False
        seen.add(u)
        todo += [x for x, _ in g.nodes[u].succ]
    return True


def check(rep):
    for f in (PARSE, ENTRY, FAC, INN):
        if f not in rep.c.fns:
            rep.bad("anchor", f, "%s doesn't exist" % f)
            return
    nopanic(rep)
    terminates(rep)
    accepts(rep)
    inputs(rep)
