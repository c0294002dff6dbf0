"""C01: truth-value functions compute the NAL formulas (algebraic normal form of the value graph)."""
import sympy as sp
from sym import to_sym, equal, NotNumeric
from vg import show, kids

LEVEL = "other"
RULE = ("Each truth-value function's return value is extracted from the inlined value graph as a rational function of its inputs "
        "(one per guarded alternative) and compared, by algebraic normalisation, with the NAL definition; alternatives that deviate "
        "are accepted only behind the guard under which the defining quotient is degenerate. Equality with the definition gives the "
        "range/monotonicity facts for all inputs at once.")
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic",
          "f in [0,1], c in [0,1) for the inputs (C11/C24 decide where truth values enter)"]

F1, C1, F2, C2 = sp.symbols("f1 c1 f2 c2")


def w(c):
    return c / (1 - c)


def cw(x):
    return x / (x + 1)


REF = {
    "Tv::calcExp": C1 * (F1 - sp.Rational(1, 2)) + sp.Rational(1, 2),
    "Tv::ded": (F1 * F2, C1 * C2 * F1 * F2),
    "Tv::abd": (F1, cw(F2 * C1 * C2)),
    "Tv::ind": (F2, cw(F1 * C1 * C2)),
    "Tv::rev": ((w(C1) * F1 + w(C2) * F2) / (w(C1) + w(C2)), cw(w(C1) + w(C2))),
    "Tv::comp": (F1 * F2 / (F1 + F2 - F1 * F2), cw((F1 + F2 - F1 * F2) * C1 * C2)),
    "Tv::int": (F1 * F2, C1 * C2),
    "Tv::neg": (1 - F1, C1),
}
X, Y = sp.symbols("x y")
REFS = {
    "Tv::w2c": X / (X + 1),
    "Tv::c2w": X / (1 - X),
    "Tv::or": X + Y - X * Y,
}


def namer(g):
    def n(v):
        if v.op == "field" and v.a[0].op == "param" and v.a[1] in ("f", "c"):
            i = v.a[0].a[0]
            return {(1, "f"): F1, (1, "c"): C1, (2, "f"): F2, (2, "c"): C2}.get((i, v.a[1]))
        if v.op == "param":
            return {1: X, 2: Y}.get(v.a[0])
        return None
    return n


def returns(g):
    """(value, facts disjunct) alternatives of the return value: phis resolved per incoming edge"""
    out = []
    for e in g.events("return"):
        out += alternatives(g, e.val, g.facts_at(e.node))
    return out


def alternatives(g, v, ds, depth=6):
    """resolve the phis inside v using the bindings in each disjunct; falls back to edge facts"""
    res = []
    for d in ds:
        res += _alt(g, v, d, depth)
    return res


def _alt(g, v, d, depth):
    ph = [x for x in _subs(v) if x.op == "phi"]
    if not ph or depth == 0:
        return [(v, d)]
    p = ph[0]
    outs = []
    bound = [f.a[1] for f, pol in d if f.op == "bind" and f.a[0] is p]
    if bound:
        ws = [(bound[0], d)]
    else:
        ws = []
        for pred, w_ in g.phis.get(p.id, []):
            for dd in (g.OUT.get(pred) or []):
                ws.append((w_, [(g.vals[i], q) for i, q in dd]))
    for w_, dd in ws:
        nv = subst(g, v, p, w_)
        if nv is v:
            continue
        outs += _alt(g, nv, dd, depth - 1)
    return outs


def _subs(v):
    from vg import subvalues
    return list(subvalues(v).values())


def subst(g, v, old, new):
    if v is old:
        return new
    if not any(x is old for x in _subs(v)):
        return v
    a = [subst(g, x, old, new) if hasattr(x, "op") else x for x in v.a]
    return g.rebuild(v, a)


def fmt(d):
    return "; ".join(("" if p else "not ") + show(v) for v, p in d if v.op != "bind")


def check(rep):
    for fn, ref in REF.items():
        g = rep.graph(fn)
        nm = namer(g)
        alts = returns(g)
        rep.check(len(alts) > 0, "returns", fn, "%s has no return value" % fn)
        good = 0
        for v, d in alts:
            comps = [("value", v, ref)] if not isinstance(ref, tuple) else \
                [("f", g.field(v, "f"), ref[0]), ("c", g.field(v, "c"), ref[1])]
            for cn, val, rf in comps:
                for val2, d2 in _alt(g, val, d, 6):
                    try:
                        got = to_sym(val2, nm)
                    except NotNumeric as e:
                        rep.bad("formula", "%s.%s" % (fn, cn), "%s: component %s is not a closed arithmetic expression: %s" % (fn, cn, e))
                        continue
                    if equal(got, rf):
                        rep.ok("formula", "%s.%s = %s" % (fn, cn, rf))
                        good += 1
                    elif degenerate(fn, cn, g, d2 if d2 else d, nm, got):
                        rep.ok("degenerate", "%s.%s under %s" % (fn, cn, fmt(d2 or d)))
                    else:
                        rep.bad("formula", "%s.%s" % (fn, cn),
                                "%s (%s): component %s is %s, the definition is %s [under: %s]" % (
                                    fn, g.root.fn.file, cn, sp.simplify(got), rf, fmt(d2 or d)))
        rep.check(good >= (2 if isinstance(ref, tuple) else 1), "formula-present", fn,
                  "%s never computes its defining formula" % fn)
    for fn, rf in REFS.items():
        g = rep.graph(fn)
        for v, d in returns(g):
            try:
                got = to_sym(v, namer(g))
                rep.check(equal(got, rf), "formula", fn, "%s is %s, the definition is %s" % (fn, got, rf))
            except NotNumeric as e:
                rep.bad("formula", fn, "%s is not a closed arithmetic expression: %s" % (fn, e))
    ded_goal(rep)
    counts(rep)
    usefulness(rep)
    vectors(rep)


def degenerate(fn, cn, g, d, nm, got):
    """accept a constant alternative only where the quotient's denominator is (almost) zero"""
    if fn == "Tv::rev" and cn == "f":
        tot = w(C1) + w(C2)
        for v, p in d:
            if v.op == "bin" and v.a[0] in ("Lt", "Le", "Eq"):
                try:
                    a, b = to_sym(v.a[1], nm), to_sym(v.a[2], nm)
                except NotNumeric:
                    continue
                # not (0 < w), w <= 0, w == 0
                if v.a[0] == "Lt" and not p and a == 0 and equal(b, tot):
                    return True
                if v.a[0] == "Le" and p and b == 0 and equal(a, tot):
                    return True
                if v.a[0] == "Eq" and p and ((b == 0 and equal(a, tot)) or (a == 0 and equal(b, tot))):
                    return True
    if fn == "Tv::comp" and cn == "f":
        f0 = F1 + F2 - F1 * F2
        for v, p in d:
            if v.op == "bin" and v.a[0] in ("Lt", "Le", "Eq"):
                try:
                    a, b = to_sym(v.a[1], nm), to_sym(v.a[2], nm)
                except NotNumeric:
                    continue
                small = None
                if v.a[0] in ("Lt", "Le") and p:
                    small = (a, b)
                elif v.a[0] in ("Lt", "Le") and not p:
                    small = (b, a)
                elif v.a[0] == "Eq" and p:
                    small = (a, b) if b == 0 else (b, a)
                if small is None or not small[1].is_number or not (0 <= small[1] <= sp.Rational(1, 10 ** 6)):
                    continue
                q = small[0]
                if q.func == sp.Abs:
                    q = q.args[0]
                if equal(q, f0) or (small[0].func == sp.Abs and equal(q, -f0)):
                    return got == 0
    return False


def ded_goal(rep):
    fn = "Tv::dedGoal"
    g = rep.graph(fn)
    nm = namer(g)
    pos = (F1 * F2, C1 * C2 * F1 * F2)
    negt = (1 - (1 - F1) * F2, C1 * C2 * (1 - F1) * F2)
    seen = set()
    for v, d in returns(g):
        try:
            f, c = to_sym(g.field(v, "f"), nm), to_sym(g.field(v, "c"), nm)
        except NotNumeric as e:
            rep.bad("formula", fn, "%s: %s" % (fn, e))
            continue
        which = "pos" if equal(f, pos[0]) and equal(c, pos[1]) else "neg" if equal(f, negt[0]) and equal(c, negt[1]) else None
        if which is None:
            rep.bad("formula", fn, "%s yields f=%s c=%s, expected the deduction %s or the negated deduction %s" % (fn, f, c, pos, negt))
            continue
        seen.add(which)
        # the chosen alternative must be the one with the larger confidence
        okk = False
        for x, p in d:
            if x.op == "bin" and x.a[0] in ("Lt", "Le"):
                try:
                    a, b = to_sym(x.a[1], nm), to_sym(x.a[2], nm)
                except NotNumeric:
                    continue
                big = b if p else a
                small = a if p else b
                mine, other = (pos[1], negt[1]) if which == "pos" else (negt[1], pos[1])
                if equal(big - small, mine - other):
                    okk = True
        rep.check(okk, "dedGoal-selects-stronger", which, "%s: the %s alternative is not chosen by comparing the two confidences" % (fn, which))
    rep.check(seen == {"pos", "neg"}, "dedGoal-alternatives", "both", "%s: alternatives found: %s" % (fn, sorted(seen)))


def counts(rep):
    """count evidence: f = pos/cnt, c = cnt/(cnt+1); truth-value evidence is passed through"""
    P, N = sp.symbols("pos cnt")
    g = rep.graph("NarSentence::retTv", inline=lambda p, i: True)

    def nm(v):
        if v.op == "vfield" and v.a[1] == "CNT":
            return {"pos": P, "cnt": N}.get(v.a[2])
        return None
    kinds = set()
    for v, d in returns(g):
        if v.op == "agg" and v.a[1] == "None":
            ok = any((x.op == "isv" and x.a[1] == "Some" and not p) for x, p in d)
            rep.check(ok, "retTv-none", "only without evidence", "retTv returns no truth value although evidence is present")
            kinds.add("none")
            continue
        tv = g.vfield(v, "Some", "0")
        if tv.op == "vfield" and tv.a[1] == "TV":
            rep.ok("retTv", "truth-value evidence is returned unchanged")
            kinds.add("tv")
            continue
        try:
            f, c = to_sym(g.field(tv, "f"), nm), to_sym(g.field(tv, "c"), nm)
        except NotNumeric as e:
            rep.bad("retTv", "cnt", "retTv: %s" % e)
            continue
        kinds.add("cnt")
        rep.check(equal(f, P / N), "retTv", "cnt.f", "frequency of count evidence is %s, expected pos/cnt" % f)
        rep.check(equal(c, N / (N + 1)), "retTv", "cnt.c", "confidence of count evidence is %s, expected cnt/(cnt+1)" % c)
    rep.check({"tv", "cnt", "none"} <= kinds, "retTv-cases", "all", "retTv covers only %s" % sorted(kinds))


def usefulness(rep):
    L, U, T = sp.symbols("last use now")
    g = rep.graph("NarSentence::calcUsageUsefulness")

    def nm(v):
        if v.op == "field" and v.a[0].op == "param":
            return {"lastUsed": L, "useCount": U}.get(v.a[1])
        if v.op == "param" and v.a[0] == 2:
            return T
        return None
    for v, d in returns(g):
        for v2, d2 in _alt(g, v, d, 6):
            try:
                got = to_sym(v2, nm)
            except NotNumeric as e:
                rep.bad("usefulness", "formula", str(e))
                continue
            rec = sp.Max(0, T - L)
            q = U / (rec + 1)
            ref = q / (q + 1)
            alts = [ref, ref.subs(rec, 0), ref.subs(rec, T - L)]
            rep.check(any(equal(got, r) for r in alts), "usefulness", "formula",
                      "usage usefulness is %s, expected %s" % (got, ref))


def vectors(rep):
    """vector versions apply the scalar function elementwise to matching elements"""
    for fn, scalar in (("TvVec::revVec", "Tv::rev"), ("TvVec::compVec", "Tv::comp")):
        g = rep.graph(fn, atoms=["Tv::rev", "Tv::comp"])
        calls = [e for e in g.events("call") if e.name in ("Tv::rev", "Tv::comp")]
        rep.check(len(calls) >= 1 and all(e.name == scalar for e in calls), "vector", fn,
                  "%s does not apply %s elementwise" % (fn, scalar))
        for e in calls:
            txt = [roots(x) for x in e.args]
            rep.check(txt == [{1}, {2}], "vector-args", fn, "%s: %s is applied to %s" % (fn, scalar, [show(x) for x in e.args]))
    g = rep.graph("TvVec::foldVec", atoms=["Tv::rev"])
    calls = [e for e in g.events("call", "Tv::rev")]
    rep.check(len(calls) >= 1, "vector", "TvVec::foldVec", "foldVec does not revise")


def roots(v):
    return {x.a[0] for x in _subs(v) if x.op == "param"}
