"""C23: the Narsese grammar, and how terms are written."""
import adt
import loops
import partial
import q
from c22 import NP, SUBJ, ENTRY, char_of
from vg import V, kids, show

LEVEL = "other"
RULE = ("Reading: every way the term parser succeeds is reduced to the sequence of tokens and sub-terms which its rest was left behind, and the term built must be the one this sequence stands for, with the sub-terms read as operands, "
        "all of them, in their order (repetitions by the tokens of the loop and what is collected in it); every form of the language has such a way; reading fails only after each form was tried; copula tokens stand for their copulas; "
        "names are made of letters, digits, - _ ^. Writing: for every kind of term the text is its brackets, separators and copula, with the texts of all components in order.")
ASSUME = ["nom's tag and take_while_m_n behave as documented", "what the text of a line is cut to before the grammar gets it is decided by C22"]
PRINT = "Term::convTermToStr"
COPS = {"-->": "INH", "<->": "SIM", "==>": "IMPL", "=/>": "PREDIMPL", "<=>": "EQUIV"}
SEPS = {",": "Seq", "&": "ExtInt", "|": "IntInt", "*": "Prod", "&&": "Conj"}
VARS = {"?": "QVar", "#": "DepVar", "$": "IndepVar"}
SETS = {("{", "}"): "SetExt", ("[", "]"): "SetInt"}
CALLS = ("Fn::call", "FnMut::call_mut", "FnOnce::call_once", "Parser::parse")


# ---------------------------------------------------------------- tokens
def payload(v):
    """X, i of the i-th part of the success of the parser call X"""
    if v.op == "field" and str(v.a[1]) in ("0", "1"):
        x = v.a[0]
        while x.op in ("okval", "vfield") or x.op == "call" and x.a[0] == "Result::ok":
            x = x.a[1] if x.op == "call" else x.a[0]
        if x.op == "call":
            return x, int(v.a[1])
    return None, None


def arg_of(x):
    if x.a[0] in CALLS:
        t = x.a[2]
        return t.a[3] if t.op == "agg" and t.a[0] == "tuple" else t
    return x.a[1]


def token(x, cops):
    """the token a parser call reads"""
    if x.a[0] in (SUBJ, ENTRY):
        return ("term", x)
    if x.a[0] in cops:
        return ("cop", x)
    if x.a[0] in CALLS:
        for y in q.subs(x.a[1]):
            if y.op == "call" and y.a[0].endswith("::tag") and y.a[1].op == "const":
                return ("tag", str(y.a[1].a[1]), x)
            if y.op == "call" and y.a[0].endswith("complete::char") and y.a[1].op == "const":
                return ("tag", char_of(y.a[1]), x)
            if y.op == "call" and "take_while" in y.a[0]:
                return ("atom", x)
    return None


def tokens(g, v, stops, cops, depth=40):
    """[(tokens, stop)]: the ways v is a rest of one of the stops; None if it can't be told"""
    if depth == 0:
        return None
    for s in stops:
        if v is s:
            return [([], s)]
    x, i = payload(v)
    if x is not None and i == 0:
        t = token(x, cops)
        if t is None:
            return None
        r = tokens(g, arg_of(x), stops, cops, depth - 1)
        return None if r is None else [(a + [t], s) for a, s in r]
    if v.op == "vfield" and v.a[0].op == "call" and v.a[0].a[0] == "str::strip_prefix" and v.a[0].a[2].op == "const":
        r = tokens(g, v.a[0].a[1], stops, cops, depth - 1)
        return None if r is None else [(a + [("tag", char_of(v.a[0].a[2]), v.a[0])], s) for a, s in r]
    if v.op == "idx" and v.a[1].op == "agg" and v.a[1].a[0].endswith("RangeFrom") and partial.num(v.a[1].a[3]) is not None:
        # after starts_with
        n = partial.num(v.a[1].a[3])
        lits = {char_of(e.args[1]) for e in g.events("call", "str::starts_with") if e.args[0] is v.a[0] and partial.lit(e.args[1]) == n}
        if len(lits) != 1:
            return None
        r = tokens(g, v.a[0], stops, cops, depth - 1)
        return None if r is None else [(a + [("tag", lits.pop(), v)], s) for a, s in r]
    if root(v).op == "phi" and v.op != "phi":
        out = []
        for _, w in leaves(g, v):
            r = tokens(g, w, stops, cops, depth - 1) if w is not v else None
            if r is None:
                return None
            out += r
        return out
    if v.op == "phi" and v.id in g.phis:
        entry, body = [], []
        for _, w in g.phis[v.id]:
            if unreal(w):
                continue
            r = tokens(g, w, list(stops) + [v], cops, depth - 1)
            if r is None:
                return None
            for a, s in r:
                (body if s is v else entry).append((a, s))
        body = [a for a, _ in body if a]
        if not body:
            return entry
        return [(a + [("loop", body)], s) for a, s in entry]
    return None


def unreal(w):
    """the success part of an error"""
    return root(w).op == "call" and root(w).a[0] == "FromResidual::from_residual"


def root(v):
    while v.op in ("field", "vfield", "okval") and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def leaves(g, v, seen=None, pr=None):
    """[(edge source or None, value)]: the values v can have, through joins below its path of fields and payloads, those of errors left out"""
    seen = seen if seen is not None else set()
    if v.op in ("vfield", "okval") and v.a[0].op == "optthen":
        return leaves(g, v.a[0].a[1], seen, pr)
    r = root(v)
    if r.op != "phi" or r.id not in g.phis:
        return [] if v is not r and (r.op == "agg" and r.a[1] == "Err" or unreal(r)) else [(pr, v)]
    if v.id in seen:
        return []
    seen.add(v.id)
    return [x for p, w in g.phis[r.id] for x in leaves(g, q.subst(g, v, r, w), seen, p)]


def text_of(ts):
    out = []
    for t in ts:
        out.append({"tag": lambda: repr(t[1]), "term": lambda: "T", "atom": lambda: "name", "cop": lambda: "copula", "loop": lambda: "(%s)*" % " / ".join(text_of(b) for b in t[1])}[t[0]]())
    return " ".join(out)


def flat(ts):
    """tags next to each other joined, blanks around dropped"""
    out = []
    for t in ts:
        if t[0] == "tag" and out and out[-1][0] == "tag":
            out[-1] = ("tag", out[-1][1] + t[1])
        elif t[0] == "loop":
            out.append(("loop", [flat(b) for b in t[1]]))
        else:
            out.append(t[:2])
    return out


# ---------------------------------------------------------------- expected terms
def meaning(ts):
    """(kind, operands, repeated operand or None, separator) of a token sequence"""
    ts = flat(ts)
    k = [t[0] for t in ts]
    if k == ["atom"]:
        return ("Name", [ts[0][1]], None, None)
    if k == ["tag", "atom"] and ts[0][1] in VARS:
        return (VARS[ts[0][1]], [ts[1][1]], None, None)
    if k == ["tag", "term", "tag"]:
        if (ts[0][1], ts[2][1]) in SETS:
            return (SETS[(ts[0][1], ts[2][1])], [ts[1][1]], None, None)
        if (ts[0][1], ts[2][1]) == ("(!", ")"):
            return ("Neg", [ts[1][1]], None, None)
        return None
    if k == ["tag", "term", "cop", "term", "tag"] and (ts[0][1], ts[4][1]) == ("<", ">"):
        return ("Stmt", [ts[2][1], ts[1][1], ts[3][1]], None, None)
    if k == ["tag", "term", "tag", "term", "tag"] and (ts[0][1], ts[4][1]) == ("<", ">") and ts[2][1].strip() in COPS and ts[2][1] == " %s " % ts[2][1].strip():
        return ("Stmt", [COPS[ts[2][1].strip()], ts[1][1], ts[3][1]], None, None)
    if k and k[0] == "tag" and k[-1] == "tag" and (ts[0][1], ts[-1][1]) == ("(", ")"):
        inner, ops, sep, rep = ts[1:-1], [], None, None
        want = "term"
        for t in inner:
            if t[0] == "loop":
                if len(t[1]) != 1 or [x[0] for x in t[1][0]] != ["tag", "term"] or rep is not None or want != "tag":
                    return None
                if sep is not None and t[1][0][0][1] != sep:
                    return None
                sep, rep = t[1][0][0][1], t[1][0][1][1]
                continue
            if rep is not None or t[0] != want:
                return None
            if t[0] == "term":
                ops.append(t[1])
                want = "tag"
            else:
                if sep is not None and t[1] != sep:
                    return None
                sep, want = t[1], "term"
        if want != "tag" or sep is None:
            return None
        if sep in (" /1 ", " /2 ") and len(ops) == 2 and rep is None:
            return ("Img", [ops[0], 0 if sep == " /1 " else 1, ops[1]], None, sep)
        if sep in SEPS and (len(ops) >= 2 or rep is not None and len(ops) >= 1):
            return (SEPS[sep], ops, rep, sep)
    return None


def items(g, v):
    """(values in order, repeated value or None) of a list of operands; None if it can't be told"""
    if root(v).op == "phi":
        ls = [w for _, w in leaves(g, v)]
        return items(g, ls[0]) if len(ls) == 1 and root(ls[0]).op != "phi" else None
    if v.op == "mapped":
        src = items(g, v.a[0])
        if src is None:
            return None
        f = lambda x: q.subst(g, v.a[2], v.a[1], x)
        if v.a[2] is v.a[1] or v.a[1].op == "elem":
            return [f(x) if v.a[2] is not v.a[1] else x for x in src[0]], (None if src[1] is None else f(src[1]) if v.a[2] is not v.a[1] else src[1])
        return None
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[3:]), None
    if v.op == "new":
        cs = q.contents(g, v)
        if any(c[0] != "item" for c in cs):
            return None
        pos = {n: i for i, n in enumerate(g.order)}
        cs.sort(key=lambda c: (pos.get(c[2].node.id, 0), c[2].pos if hasattr(c[2], "pos") else 0))
        ls = loops.loops(g)
        fixed, rep = [], None
        for _, x, e in cs:
            inl = [l for l in ls if e.node.id in l.body]
            if not e.name.endswith(("::push", "::push_back")):
                return None
            if inl:
                if rep is not None or not each_round(g, min(inl, key=lambda l: len(l.body)), e.node.id):
                    return None
                rep = x
            else:
                if rep is not None:
                    return None
                fixed.append(x)
        return fixed, rep
    if v.op == "call" and v.a[0] in ("Vec::clone", "slice::to_vec", "slice::into_vec"):
        return items(g, v.a[1])
    return None


def each_round(g, l, node):
    """no round of the loop passes by node, and the loop is only left where reading fails"""
    todo, seen = [x for x, lab in g.nodes[l.head].succ if x in l.body] if l.head != node else [], set()
    while todo:
        u = todo.pop()
        if u in seen or u == node:
            continue
        seen.add(u)
        for x, lab in g.nodes[u].succ:
            if g.edge_facts(g.nodes[u], lab) is None:
                continue
            if x == l.head:
                return False
            if x in l.body:
                todo.append(x)
    for u in l.body:
        for x, lab in g.nodes[u].succ:
            fs = g.edge_facts(g.nodes[u], lab)
            if x not in l.body and fs and not any(y.op == "call" and (token(y, ()) is not None or y.a[0] == "str::strip_prefix" or y.a[0] == "str::starts_with") for f, _ in fs for y in q.subs(f)):
                if not panics(g, x):
                    return False
    return True


def panics(g, n):
    return not any(True for _ in g.nodes[n].succ) and g.nodes[n].kind not in ("return",)


def is_part(g, v, x):
    """v is what the parser call x read"""
    ls = [w for _, w in leaves(g, v)]
    return bool(ls) and all(is_part1(w, x) for w in ls)


def is_part1(v, x):
    if isinstance(x, str):
        return v.op == "agg" and v.a[1] == x
    if isinstance(x, int):
        return partial.num(v) == x
    y, i = payload(v)
    return i == 1 and y is x


def reading(rep):
    c = rep.c
    cops = [f for f in c.fns if f.startswith(NP) and "{" not in f and "Result<" in ret_type(c, f) and "Term::Copula" in ret_type(c, f)]
    used = q.reach(c, SUBJ)
    cops = [f for f in cops if f in used]
    cops = [f for f in cops if not any(f in q.calls_of(c, h) for h in cops if h != f)] or cops
    g = rep.graph(SUBJ, atoms=cops)
    base = adt.param(g, 1)
    seen, n, firsts, wins = {}, 0, [], set()
    graphs = [(g, SUBJ, base)]
    # forms handed over as functions (alt, tables)
    done = {SUBJ}
    for h, _, _ in graphs:
        for f in sorted({str(x.a[0]) for m in h.nodes for e in m.events for a in e.args if isinstance(a, V) for x in q.subs(a) if x.op in ("fn", "fnc", "closure") and str(x.a[0]).startswith(NP)} - done):
            if f in c.fns and "Term::Term" in ret_type(c, f) and "Result<" in ret_type(c, f):
                done.add(f)
                k = rep.graph(f, atoms=cops + [SUBJ])
                own = adt.param(k, 1)
                caps = [x for x in list(k.pool.t.values()) if x.op == "field" and x.a[0] is own and str(x.a[1]).startswith("^")]
                graphs.append((k, f, caps if "{closure" in f else own))
    for h, name, inp in graphs:
        for pr, v, w in successes(h):
            if w is None:
                if name == SUBJ and pr is not None and v.op == "agg":
                    wins.add(pr)
                continue
            n += 1
            where = "%s:%s" % (h.nodes[pr].inst.fn.path, h.nodes[pr].line) if pr is not None else name
            if not (w.op == "agg" and len(w.a) == 5):
                x, _ = (w, 0) if w.op == "call" else (None, None)
                rep.bad("reading", "shape", "%s: the result of reading is %s" % (where, show(w, 5)))
                continue
            rest, term = w.a[3], w.a[4]
            alts = tokens(h, rest, inp if isinstance(inp, list) else [inp], cops)
            if not rep.check(alts is not None, "reading", "tokens", "%s: what was read before the rest %s can't be told" % (where, show(rest, 6))):
                continue
            for ts, _ in alts:
                m = meaning(ts)
                if not rep.check(m is not None, "reading", "form", "%s: %s is no form of the language" % (where, text_of(ts))):
                    continue
                kind, ops, repd, sep = m
                for _, t in leaves(h, term):
                    judge(rep, h, where, ts, kind, ops, repd, sep, t)
                seen.setdefault((kind, sep, kind == "Stmt" and isinstance(ops[0], str) and ops[0]), []).append((len(ops), repd is not None))
                if name == SUBJ:
                    x = [t[-1] for t in ts if t[0] != "loop"][0]
                    firsts.append((kind, sep, len(ops), x, pr))
            if name == SUBJ and pr is not None:
                wins.add(pr)
    rep.floor("reading", n, 10, "ways to read a term")
    for k in ("Name", "Neg", "SetExt", "SetInt") + tuple(VARS.values()):
        rep.check(any(s[0] == k for s in seen), "forms", k, "there is no way to read a %s" % k)
    for k, s in ((x, y) for y, x in SEPS.items()):
        have = [y for (a, b, _), ys in seen.items() if a == k and b == s for y in ys]
        rep.check(bool(have), "forms", k, "there is no way to read a %s" % k)
        if k in ("Seq", "Prod"):
            rep.check(not have or any(r for _, r in have), "forms", k + "-many", "a %s can't have more than %s components" % (k, max([m for m, _ in have], default=0)))
            rep.check(not have or any(r and m <= 2 for m, r in have) or any(m == 2 for m, _ in have), "forms", k + "-two", "a %s of two components can't be read" % k)
        if k == "Conj":
            for m in (2, 3, 4):
                rep.check(not have or any(m == y or r and y <= m for y, r in have), "forms", "Conj-%d" % m, "a conjunction of %d components can't be read" % m)
        if k in ("ExtInt", "IntInt"):
            rep.check(not have or any(m == 2 or r and m < 2 for m, r in have), "forms", k + "-two", "a %s of two components can't be read" % k)
    for s in (" /1 ", " /2 "):
        rep.check(any(a == "Img" and b == s for a, b, _ in seen), "forms", "Img" + s, "there is no way to read an image with%s" % s)
    st = [k for k in seen if k[0] == "Stmt"]
    rep.check(bool(st), "forms", "Stmt", "there is no way to read a statement")
    copulas(rep, cops, {k[2] for k in st if k[2]})
    tried(rep, g, firsts, wins)
    names(rep, [h for h, _, _ in graphs])


def ret_type(c, f):
    try:
        return c.fns[f].locals[0]["t"]
    except (KeyError, IndexError, TypeError):
        return ""


def choices(g, v):
    """the results of a choice by or_else, those of its closures left out"""
    for pr, w in leaves(g, v):
        if w.op == "call" and w.a[0] in ("Result::or_else", "Result::or"):
            for x in w.a[1:3]:
                if x.op not in ("closure", "fn", "fnc"):
                    yield from choices(g, x)
        else:
            yield pr, w


def successes(g):
    """(edge source, result value, (rest, term) or None)"""
    for r in g.root.retnodes:
        for pr, v in choices(g, r.info[1]):
            if v.op == "agg" and v.a[1] == "Err" or unreal(v):
                continue
            if v.op == "agg" and v.a[1] == "Ok":
                for p2, w in leaves(g, v.a[3]):
                    if root(w).op == "call" and root(w).a[0] == "indirect":
                        yield (p2 if p2 is not None else pr if pr is not None else r.id), v, None
                    elif not unreal(w):
                        yield (p2 if p2 is not None else pr if pr is not None else r.id), v, w
            elif v.op == "call" and v.a[0] in CALLS and any(x.op == "call" and "alt" in x.a[0].split("::")[-1] for x in q.subs(v)):
                yield pr, v, None
            elif v.op == "call" and v.a[0] in (SUBJ, ENTRY) or v.op == "call" and v.a[0] == "indirect":
                yield pr, v, None
            elif v.op == "optthen":
                for _, w in leaves(g, v.a[1]):
                    yield (pr if pr is not None else r.id), v, w
            else:
                yield (pr if pr is not None else r.id), v, v


def judge(rep, g, where, ts, kind, ops, repd, sep, t):
    if unreal(t):
        return
    if not rep.check(t.op == "agg" and t.a[1] == kind, "reading", "kind", "%s: %s is read as %s, not as %s" % (where, text_of(ts), t.a[1] if t.op == "agg" else show(t, 4), kind)):
        return
    fs = list(t.a[3:])
    if kind in ("Name", "Neg") or kind in VARS.values():
        rep.check(is_part(g, fs[0], ops[0]), "reading", "operand", "%s: the component of %s is %s" % (where, text_of(ts), show(fs[0], 4)))
    elif kind == "Stmt":
        names_ = ("copula", "subject", "predicate")
        for f, x, nm in zip(fs, ops, names_):
            rep.check(is_part(g, f, x), "reading", nm, "%s: the %s of the statement isn't the one at its place" % (where, nm))
    elif kind == "Img":
        rep.check(is_part(g, fs[0], ops[0]), "reading", "relation", "%s: the relation of the image isn't the first component" % where)
        rep.check(is_part(g, fs[1], ops[1]), "reading", "index", "%s: %s gives an image with index %s" % (where, text_of(ts), show(fs[1])))
        it = items(g, fs[2])
        rep.check(it is not None and it[1] is None and len(it[0]) == 1 and is_part(g, it[0][0], ops[2]), "reading", "operand", "%s: the component of the image isn't the second one" % where)
    else:
        it = items(g, fs[0])
        ok = it is not None and len(it[0]) == len(ops) and all(is_part(g, a, b) for a, b in zip(it[0], ops)) and (it[1] is None) == (repd is None) and (repd is None or is_part(g, it[1], repd))
        rep.check(ok, "reading", "operands", "%s: the components of %s aren't those read, all and in their order" % (where, text_of(ts)))


def copulas(rep, cops, direct):
    have = set(direct)
    for f in cops:
        g = rep.graph(f)
        base = adt.param(g, 1)
        n = 0
        for pr, v, w in successes(g):
            if w is None or not (w.op == "agg" and len(w.a) == 5):
                continue
            for _, k in leaves(g, w.a[4]):
                alts = tokens(g, w.a[3], [base], [])
                ts = flat(alts[0][0]) if alts and len(alts) == 1 else None
                if not rep.check(ts is not None and len(ts) == 1 and ts[0][0] == "tag", "copula", "token", "%s: what is read for the copula %s can't be told" % (f, show(k))):
                    continue
                n += 1
                s = ts[0][1]
                rep.check(k.op == "agg" and s == " %s " % s.strip() and COPS.get(s.strip()) == k.a[1], "copula", "token", "%s: %r is read as the copula %s" % (f, s, show(k)))
                if k.op == "agg":
                    have.add(k.a[1])
    for k in COPS.values():
        rep.check(k in have, "copula", k, "there is no way to read the copula %s" % k)


def tried(rep, g, firsts, wins):
    """reading fails only after every form was tried"""
    done = set()
    for kind, sep, k, x, pr in firsts:
        if pr is None or (kind, sep, k) in done:
            continue
        done.add((kind, sep, k))
        inst = g.nodes[pr].inst
        ns = {n.id for n in g.nodes for e in n.events if e.kind == "call" and e.val is x}
        mine = {i for i in ns if g.nodes[i].inst is inst} or ns
        p = escape(g, mine | wins)
        rep.check(p is None, "tried", "%s%s" % (kind, sep or ""), "%s: reading can end at line %s before a %s%s was tried" % (SUBJ, p, kind, " with %r" % sep if sep else ""))


def cls(w, env):
    if w.op == "agg" and w.a[1] in ("Ok", "Err"):
        return w.a[1]
    if w.op == "call" and w.a[0] == "FromResidual::from_residual":
        return "Err"
    return env.get(w.id)


def tests(g):
    """(facts about Ok and Err per edge, joins per node, nodes from which a join is still asked for)"""
    if hasattr(g, "_c23"):
        return g._c23
    at = {}
    for v in list(g.pool.t.values()):
        if v.op == "phi" and v.id in g.phis:
            at.setdefault(v.a[-1][1], []).append(v)
    facts, used = {}, {}
    for n in g.nodes:
        for x, lab in n.succ:
            fs = g.edge_facts(n, lab)
            if fs is not None:
                fs = [(f.a[0], "Ok" if f.op == "isok" else f.a[1], p) for f, p in fs if f.op == "isok" or f.op == "isv" and f.a[1] in ("Ok", "Err")]
                for w, _, _ in fs:
                    used.setdefault(w.id, set()).add(n.id)
            facts[(n.id, x, lab)] = fs
    for pid, lst in g.phis.items():
        for p, w in lst:
            used.setdefault(w.id, set()).add(p)
    preds = {}
    for n in g.nodes:
        for x, _ in n.succ:
            preds.setdefault(x, []).append(n.id)
    live = {}
    for vs in at.values():
        for v in vs:
            todo, seen = list(used.get(v.id, ())), set()
            while todo:
                u = todo.pop()
                if u not in seen:
                    seen.add(u)
                    if u != v.a[-1][1]:
                        todo += preds.get(u, ())
            live[v.id] = seen
    g._c23 = facts, at, live
    return g._c23


def escape(g, block):
    """line of a return reached without passing block"""
    facts, phis, live = tests(g)
    ret = {r.id for r in g.root.retnodes}
    todo, seen = [(g.order[0], frozenset())], set()
    while todo:
        u, env = todo.pop()
        if (u, env) in seen or u in block:
            continue
        seen.add((u, env))
        if u in ret:
            return g.nodes[u].line
        ed = dict(env)
        for x, lab in g.nodes[u].succ:
            fs = facts[(u, x, lab)]
            if fs is None or any(cls(w, ed) is not None and (cls(w, ed) == k) != p for w, k, p in fs):
                continue
            e2 = {k: v for k, v in env if x in live[k]}
            for ph in phis.get(x, ()):
                for p, w in g.phis[ph.id]:
                    if p == u:
                        k = cls(w, ed)
                        if k is not None and x in live[ph.id]:
                            e2[ph.id] = k
                        else:
                            e2.pop(ph.id, None)
            todo.append((x, frozenset(e2.items())))
    return None


def names(rep, graphs):
    """the characters of names"""
    preds = {}
    for g in graphs:
        for n in g.nodes:
            for e in n.events:
                for a in e.args:
                    if isinstance(a, V):
                        for x in q.subs(a):
                            if x.op == "call" and "take_while" in x.a[0]:
                                preds[show(x, 5)] = x
    rep.floor("names", len(preds), 1, "readers of names")
    for x in preds.values():
        if x.a[0].endswith("take_while_m_n"):
            rep.check(partial.num(x.a[1]) == 1, "names", "length", "a name has at least %s characters" % show(x.a[1]))
            rep.check((partial.num(x.a[2]) or 0) >= 512, "names", "length", "a name has at most %s characters" % show(x.a[2]))
        f = [y for y in x.a[1:] if isinstance(y, V)][-1]
        f = str(f.a[0]) if f.op in ("fn", "fnc", "closure") else None
        if f not in rep.c.fns:
            continue
        h = rep.graph(f)
        chars, classes, unknown = set(), set(), False
        for r in h.root.retnodes:
            for v, d in q.alts(h, r, r.info[1]):
                if v.op == "const" and v.a[1] in (False, "false", 0):
                    no = {char_of(y) for z, p in d if p and z.op == "bin" and z.a[0] == "Eq" for y in kids(z) if char_of(y) is not None}
                    no = {ch for ch in no if ch.isalnum() or ch in "-_^"}
                    rep.check(not no, "names", "characters", "a name can't have the characters %s" % sorted(no))
                    continue
                ps = [z for z, p in list(d) + ([(v, True)] if v.op != "const" else []) if p]
                got = False
                for z in ps:
                    if z.op == "bin" and z.a[0] == "Eq":
                        for y in kids(z):
                            if char_of(y) is not None:
                                chars.add(char_of(y))
                                got = True
                    elif z.op == "call" and len(z.a) > 1 and z.a[0].startswith("char::"):
                        classes.add(z.a[0])
                        got = True
                    elif z.op == "bin" and z.a[0] in ("Le", "Lt"):
                        classes.add("range")
                        got = True
                    elif z.op == "call" and z.a[0].endswith("contains") and z.a[1].op == "const":
                        chars |= set(str(z.a[1].a[1]))
                        got = True
                    else:
                        cs = {char_of(y) for y in q.subs(z) if y.op == "const" and char_of(y) is not None}
                        chars |= cs
                        got = got or bool(cs)
                unknown = unknown or not got
        rep.check(unknown or {"-", "_", "^"} <= chars, "names", "characters", "a name can't have the characters %s" % sorted({"-", "_", "^"} - chars))
        extra = {ch for ch in chars if not ch.isalnum() and ch not in "-_^"}
        rep.check(not extra, "names", "characters", "a name can have %s, which are (part of) tokens or blanks" % sorted(extra))
        rep.check(unknown or "char::is_alphanumeric" in classes or {"char::is_alphabetic", "char::is_numeric"} <= classes, "names", "characters", "a name can't have all letters and digits")
        bad = {k for k in classes if k in ("char::is_whitespace", "char::is_ascii_graphic", "char::is_ascii_punctuation", "char::is_ascii", "char::is_control")}
        rep.check(not bad, "names", "characters", "a name can have characters of the class %s" % sorted(bad))


# ---------------------------------------------------------------- writing
def pieces(v):
    """texts and values of a formatted string; None if it can't be told"""
    while v.op == "call" and v.a[0] in ("hint::must_use", "ToString::to_string", "String::from", "str::to_string"):
        v = v.a[1]
    if v.op == "const" and isinstance(v.a[1], str):
        return [v.a[1]]
    if v.op == "call" and v.a[0] == "fmt::format":
        a = v.a[1]
        if a.op == "call" and a.a[0] == "Arguments::new" and a.a[1].op == "const" and a.a[2].op == "agg":
            tpl = a.a[1].a[1]
            args = list(a.a[2].a[3:])
            out, i, k = [], 0, 0
            if not isinstance(tpl, (tuple, list)):
                return None
            while i < len(tpl):
                b = tpl[i]
                if b == 0:
                    break
                if b == 192:
                    if k >= len(args) or not (args[k].op == "call" and args[k].a[0] == "Argument::new_display"):
                        return None
                    out.append(args[k].a[1])
                    k += 1
                    i += 1
                elif b < 128:
                    out.append(bytes(tpl[i + 1:i + 1 + b]).decode("utf8", "replace"))
                    i += 1 + b
                else:
                    return None
            res = []
            for x in out:
                y = pieces(x) if isinstance(x, V) else [x]
                for z in y if y is not None else [x]:
                    if isinstance(z, str) and res and isinstance(res[-1], str):
                        res[-1] += z
                    else:
                        res.append(z)
            return res
    return None


def writes_of(v):
    """the component whose text v is"""
    return v.a[1] if v.op == "call" and v.a[0] == PRINT else None


def joined(g, v):
    """(list, separator) of which v is the text; None if it can't be told"""
    if v.op == "call" and v.a[0] in ("slice::join", "Join::join", "Itertools::join") and v.a[2].op == "const":
        src = v.a[1]
        if src.op == "mapped" and writes_of(src.a[2]) is src.a[1]:
            return src.a[0], v.a[2].a[1]
        return None
    x = writes_of(v)
    if x is not None and x.op in ("idx", "cidx", "elem", "okval") and not any(e.args and e.args[0] is v and e.name and e.name.split("::")[-1] in GROW for e in g.events("call")):
        return ("wrong", x)
    if v.op == "phi" and v.id in g.phis:
        first, step = None, None
        for _, w in g.phis[v.id]:
            if any(x is v for x in q.subs(w)):
                step = pieces(w)
            else:
                first = w
        x = writes_of(first) if first is not None else None
        if x is not None and step is not None and len(step) == 3 and step[2] is v:
            return ("wrong", x)
        if x is None or step is None or len(step) != 3 or step[0] is not v or not isinstance(step[1], str):
            return None
        y = writes_of(step[2]) if isinstance(step[2], V) else None
        if y is None or y.op != "idx" or x.op not in ("idx", "cidx"):
            return None
        coll = x.a[0]
        zero = partial.num(x.a[1]) == 0 if x.op == "idx" else x.a[1] == 0
        i = y.a[1]
        r = i.a[0] if i.op == "elem" else None
        if not zero or y.a[0] is not coll or r is None or r.op != "agg" or "Range" not in r.a[0]:
            return ("wrong", coll)
        if partial.num(r.a[3]) != 1 or not partial.len_of(r.a[4], coll) or r.a[0].endswith("Inclusive"):
            return ("wrong", coll)
        return coll, step[1]
    return None


GROW = ("push_str", "push", "write_fmt", "write_str", "insert_str", "add_assign", "extend", "insert")


def single(g, node, coll):
    """the list is known to have one component"""
    return all(any(p and v.op == "bin" and v.a[0] == "Eq" and any(partial.len_of(k, coll) for k in kids(v)) and any(partial.num(k) == 1 for k in kids(v)) for v, p in d) for d in g.facts_at(g.nodes[node]))


WRITE = {"Seq": ("(", ",", ")"), "Conj": ("(", "&&", ")"), "Prod": ("(", "*", ")"), "IntInt": ("(", "|", ")"), "ExtInt": ("(", "&", ")"), "Par": ("(", ";", ")"), "SetInt": ("[", "", "]"), "SetExt": ("{", "", "}")}


def writing(rep):
    if PRINT not in rep.c.fns:
        return
    g = rep.graph(PRINT, atoms=[])
    t = adt.param(g, 1)
    kinds = {}
    outs = {}
    for r in g.root.retnodes:
        for pr, v in leaves(g, r.info[1]):
            outs[(pr, v.id)] = (pr if pr is not None else r.id, v)
    for pr, v in outs.values():
        where = "%s:%s" % (PRINT, g.nodes[pr].line)
        comps = {x.a[1] for x in q.subs(v) if x.op == "vfield" and x.a[0] is t}
        for x in q.subs(v):
            if x.op == "phi":
                comps |= {y.a[1] for _, w in g.phis.get(x.id, ()) for y in q.subs(w) if y.op == "vfield" and y.a[0] is t}
        kind = comps.pop() if len(comps) == 1 else None
        if kind is None:
            continue
        ps = pieces(v) if v.op != "vfield" else [v]
        if ps is None:
            continue
        kinds[kind] = kinds.get(kind, 0) + 1
        f = lambda i: g.vfield(t, kind, str(i))
        sh = [x if isinstance(x, str) else None for x in ps]
        if kind == "Name":
            rep.check(ps == [f(0)], "writing", kind, "%s: a name is written as %s" % (where, shown(ps)))
        elif kind in VARS.values():
            k = [a for a, b in VARS.items() if b == kind][0]
            rep.check(len(ps) == 2 and ps[0] == k and ps[1] is f(0), "writing", kind, "%s: a %s is written as %s" % (where, kind, shown(ps)))
        elif kind == "Neg":
            rep.check(len(ps) == 3 and sh[0] is not None and sh[2] is not None and sh[0].strip() == "(!" and sh[2].strip() == ")" and writes_of(ps[1]) is f(0), "writing", kind, "%s: a negation is written as %s" % (where, shown(ps)))
        elif kind == "Stmt":
            statement(rep, g, where, t, f, ps)
        elif kind == "Img":
            ok = len(ps) == 7 and sh[0] is not None and sh[0].strip() == "(" and sh[2] is not None and sh[2].strip() == "/" and sh[6] is not None and sh[6].strip() == ")" and sh[4] == " "
            if rep.check(ok, "writing", kind, "%s: an image is written as %s" % (where, shown(ps))):
                rep.check(writes_of(ps[1]) is f(0), "writing", "Img-relation", "%s: the relation of an image isn't what is written first" % where)
                n = ps[3]
                rep.check(n.op == "bin" and n.a[0].startswith("Add") and {True} == {y is f(1) or partial.num(y) == 1 for y in kids(n)}, "writing", "Img-index", "%s: the place of an image is written as %s" % (where, show(n)))
                j = joined(g, ps[5])
                if j is not None and j[0] == "wrong" and single(g, pr, f(2)):
                    j = None
                rep.check(j is None or j[0] is f(2) and str(j[1]).strip() == "", "writing", "Img-components", "%s: the components of an image aren't all written" % where)
        elif kind in WRITE:
            o, s, c = WRITE[kind]
            ok = len(ps) == 3 and sh[0] is not None and sh[2] is not None and sh[0].strip() == o and sh[2].strip() == c
            if rep.check(ok, "writing", kind, "%s: a %s is written as %s" % (where, kind, shown(ps))):
                j = joined(g, ps[1])
                if j is not None and j[0] == "wrong" and single(g, pr, f(0)):
                    j = None
                rep.check(j is None or j[0] is f(0), "writing", kind + "-components", "%s: the components of a %s aren't all written in their order" % (where, kind))
                if j is not None and j[0] is f(0):
                    rep.check(str(j[1]).strip() == s, "writing", kind + "-separator", "%s: the components of a %s are separated by %r" % (where, kind, j[1]))
    for k in [k for k, n in kinds.items()]:
        rep.ok("writing", k)


def statement(rep, g, where, t, f, ps):
    sh = [x if isinstance(x, str) else None for x in ps]
    if len(ps) == 5 and sh[0] == "<" and sh[4] == ">" and sh[2] is not None:
        # a copula known
        tok = sh[2]
    elif len(ps) == 7 and sh[0] == "<" and sh[6] == ">" and sh[2] == " " and sh[4] == " ":
        tok = None
    else:
        rep.bad("writing", "Stmt", "%s: a statement is written as %s" % (where, shown(ps)))
        return
    first, last = ps[1], ps[-2]
    rep.check(writes_of(first) is f(1) and writes_of(last) is f(2), "writing", "Stmt-operands", "%s: a statement isn't written with its subject first and its predicate last" % where)
    if tok is None:
        v = ps[3]
        for pr, w in leaves(g, v):
            if w.op != "const":
                continue
            ds = q._fs(g, g.OUT.get(pr) or []) if pr is not None else []
            cop = f(0)
            ks = {x.a[1] for d in ds for x, p in d if x.op == "isv" and x.a[0] is cop and p}
            ks2 = [{x.a[1] for x, p in d if x.op == "isv" and x.a[0] is cop and p} for d in ds]
            if ks2 and all(len(x) == 1 for x in ks2):
                for k in ks:
                    rep.check(COPS.get(str(w.a[1]).strip()) == k, "writing", "copula", "%s: the copula %s is written as %r" % (where, k, w.a[1]))
            elif ks2 and all(not x for x in ks2):
                # the last one: all others are excluded
                no = [{x.a[1] for x, p in d if x.op == "isv" and x.a[0] is cop and not p} for d in ds]
                for x in no:
                    left = set(COPS.values()) - x
                    if len(left) == 1:
                        rep.check(COPS.get(str(w.a[1]).strip()) in left, "writing", "copula", "%s: the copula %s is written as %r" % (where, left, w.a[1]))


def shown(ps):
    return " ".join(repr(x) if isinstance(x, str) else "{}" for x in ps)


def check(rep):
    if SUBJ not in rep.c.fns:
        rep.bad("anchor", SUBJ, "%s doesn't exist" % SUBJ)
        return
    reading(rep)
    writing(rep)
