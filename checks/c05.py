"""C05: every two-premise conclusion instantiates a NAL schema (rule-table extraction from the value graph)."""
from vg import V, show, kids
import q

LEVEL = "other"
RULE = ("The binary inference entry point is inlined completely; every conclusion tuple (term, truth value, punctuation) it builds is taken "
        "with the branch conditions that hold there, and must be an instance of one schema of the NAL table below (shape of both premises, "
        "shared term established equal, conclusion built from the right components, truth function applied to the truth values of the right "
        "premises, no self-inheritance); every schema must be found for both premise orders and must flow into the returned list.")
ASSUME = ["unification and substitution are decided by C09, truth functions by C01, term equality by C07",
          "the schema table is transcribed from the NAL specification and the rule comments"]
ENTRY = "NarWorkingCycle::infBinary"
EQ, UNI, SUB = "Term::checkEqTerm", "NarUnify::unify", "NarUnify::unifySubst"
ATOMS = [EQ, UNI, SUB, "Tv::ded", "Tv::abd", "Tv::ind", "Tv::int", "Tv::comp", "Tv::rev", "Tv::neg", "Tv::dedGoal"]
SYM = {"Tv::ded", "Tv::int", "Tv::comp"}
TV = {1: 3, 4: 6}
PU = {1: 2, 4: 5}


class Ctx:
    def __init__(self, g, val, d):
        self.g, self.d = g, d
        self.term, self.tv, self.punct = val.a[3], val.a[4], val.a[5]

    def P(self, i):
        return self.g.pool.mk("param", i, self.g.root.fn.locals[i].get("n"))

    def path(self, i, *steps):
        v = self.P(i)
        for var, fld in steps:
            v = self.g.vfield(v, var, fld)
        return v

    def subj(self, i):
        return self.path(i, ("Stmt", "1"))

    def pred(self, i):
        return self.path(i, ("Stmt", "2"))

    def cop(self, i):
        return q.variant_of(self.d, self.path(i, ("Stmt", "0")))[0]

    def judge(self, i, what="JUGEMENT"):
        return q.isv(self.d, self.P(PU[i]), what) is True

    def eq(self, x, y, pol=True):
        if x is y:
            return pol
        for v, p in self.d:
            if p != pol:
                continue
            if v.op == "call" and v.a[0] == EQ or v.op == "bin" and v.a[0] == "Eq":
                ks = kids(v)
                if len(ks) == 2 and {ks[0].id, ks[1].id} == {x.id, y.id}:
                    return True
        return False

    def tvf(self, name, i, j):
        a, b = self.tvof(i), self.tvof(j)
        v = self.tv
        if v.op != "call" or v.a[0] != name:
            return False
        ks = kids(v)[:2]
        return ks == [a, b] or (name in SYM and ks == [b, a])

    def tvof(self, i):
        return self.g.vfield(self.P(TV[i]), "Some", "0")

    def stmt(self, cop):
        """(subject, predicate) of the conclusion when it is a statement with that copula"""
        t = self.term
        if t.op == "agg" and t.a[0].endswith("Term") and t.a[1] == "Stmt":
            c = t.a[3]
            cv = q.variant_of(self.d, c)[0]
            if cv == cop:
                return t.a[4], t.a[5]
        return None, None

    def both(self, x, y):
        return self.judge(x) and self.judge(y) and q.isv(self.d, self.P(x), "Stmt") and q.isv(self.d, self.P(y), "Stmt")


def syll(cop, fn, xs, ys, shared):
    """xs/ys: which side of each premise goes to the conclusion (0 subj, 1 pred); the other side is shared"""
    def f(c, x, y):
        s, p = c.stmt(cop)
        if s is None or not c.both(x, y) or c.cop(x) != cop or c.cop(y) != cop:
            return False
        side = lambda i, k: c.pred(i) if k else c.subj(i)
        return s is side(x, xs) and p is side(y, ys) and c.eq(side(x, 1 - xs), side(y, 1 - ys)) and \
            c.eq(side(x, xs), side(y, ys), False) and c.tvf(fn, x, y)
    return f


def comparison(k):
    def f(c, x, y):
        s, p = c.stmt("SIM")
        if s is None or not c.both(x, y) or c.cop(x) not in ("INH", "SIM") or c.cop(y) not in ("INH", "SIM"):
            return False
        side = lambda i, kk: c.pred(i) if kk else c.subj(i)
        return s is side(x, k) and p is side(y, k) and c.eq(side(x, 1 - k), side(y, 1 - k)) and \
            c.eq(side(x, k), side(y, k), False) and c.tvf("Tv::comp", x, y)
    return f


def intersection(c, x, y):
    s, p = c.stmt("INH")
    if s is None or not c.both(x, y) or c.cop(x) != "INH" or c.cop(y) != "INH":
        return False
    if not (p.op == "agg" and p.a[1] == "ExtInt"):
        return False
    items = q.contents(c.g, p.a[3])
    its = [v for k, v, _ in items if k == "item"]
    return len(its) == len(items) == 2 and its == [c.pred(x), c.pred(y)] and s in (c.subj(x), c.subj(y)) and \
        c.eq(c.subj(x), c.subj(y)) and c.eq(c.pred(x), c.pred(y), False) and c.tvf("Tv::int", x, y)


def setunion(c, x, y):
    s, p = c.stmt("INH")
    if s is None or not c.both(x, y) or c.cop(x) != "INH" or c.cop(y) != "INH":
        return False
    if not (p.op == "agg" and p.a[1] == "SetInt"):
        return False
    sx, sy = c.path(x, ("Stmt", "2"), ("SetInt", "0")), c.path(y, ("Stmt", "2"), ("SetInt", "0"))
    items = q.contents(c.g, p.a[3])
    src = []
    for k, v, e in items:
        src.append(v if k == "all" else (v.a[0] if v.op == "elem" else None))
    return src and {s_.id for s_ in src if s_ is not None} == {sx.id, sy.id} and None not in src and s in (c.subj(x), c.subj(y)) and \
        c.eq(c.subj(x), c.subj(y)) and c.tvf("Tv::int", x, y) and \
        q.isv(c.d, c.pred(x), "SetInt") and q.isv(c.d, c.pred(y), "SetInt")


def uni(c, u):
    """u is the substitution of a successful unify(p, q): (p, q)"""
    if u.op == "vfield" and u.a[1] == "Some" and u.a[0].op == "call" and u.a[0].a[0] == UNI and q.isv(c.d, u.a[0], "Some"):
        ks = kids(u.a[0])
        return ks[0], ks[1]
    return None, None


def subst_of(v):
    if v.op == "call" and v.a[0] == SUB:
        ks = kids(v)
        return ks[0], ks[1]
    return None, None


def impl_ded(c, x, y):
    t, u = subst_of(c.term)
    if t is None or not (c.judge(x) and c.judge(y)) or c.cop(x) != "IMPL":
        return False
    p, r = uni(c, u)
    return t is c.pred(x) and p is c.subj(x) and r is c.P(y) and c.tvf("Tv::ded", x, y)


def question_impl(c, x, y):
    t, u = subst_of(c.term)
    if t is None or not (c.judge(x, "QUESTION") and c.judge(y)) or c.cop(x) != "IMPL":
        return False
    p, r = uni(c, u)
    return t is c.P(x) and p is c.pred(x) and r is c.P(y) and c.tv is c.tvof(y)


def conj_ded(c, x, y):
    """(.. && e_k && ..) ==> p.  e_k unifies with y  |-  (rest) ==> p"""
    s, p = c.stmt("IMPL")
    if s is None or not (c.judge(x) and c.judge(y)) or c.cop(x) != "IMPL":
        return None
    t, u = subst_of(p)
    if t is None or t is not c.pred(x):
        return None
    e, r = uni(c, u)
    arr = c.path(x, ("Stmt", "1"), ("Conj", "0"))
    if e is None or r is not c.P(y) or e.op not in ("idx", "cidx", "elem") or e.a[0] is not arr:
        return None
    k = e.a[1] if e.op == "idx" else None
    if not c.tvf("Tv::ded", x, y):
        return None
    # the remaining condition
    one = False
    if s.op == "agg" and s.a[1] == "Conj":
        cont = s.a[3]
    elif s.op in ("idx", "cidx") and (s.op == "cidx" and s.a[1] == 0 or s.op == "idx" and q.is_const(s.a[1], 0)):
        cont = s.a[0]
        one = True
    elif s.op == "call" and s.a[0] in ("Vec::remove", "Vec::swap_remove") and q.is_const(s.a[2], 0):
        cont = s.a[1]
        one = True
    elif s.op == "vfield" and s.a[1] == "Some" and s.a[0].op == "call" and s.a[0].a[0] in ("Vec::pop", "slice::first", "slice::last"):
        cont = s.a[0].a[1]
        one = True
    else:
        return None
    ln = c.g.pool.mk("len", cont)
    single = None
    fs = list(c.d)
    if one and s.op in ("call", "vfield"):  # taken out of the list: what was known before that
        for ev in c.g.events("call"):
            if ev.val is (s if s.op == "call" else s.a[0]):
                ds = [set(d) for d in c.g.facts_at(ev.node)]
                fs += list(set.intersection(*ds)) if ds else []
    for v, pol in fs:
        if v.op == "bin" and v.a[0] == "Eq" and any(z is ln for z in kids(v)) and any(q.is_const(z, 1) for z in kids(v)):
            single = pol
    if single is not one:
        return None
    items = q.contents(c.g, cont)
    if not items:
        return None
    for kind, v, ev in items:
        t2, u2 = subst_of(v)
        if kind != "item" or t2 is None or u2 is not u:
            return None
        if not (t2.op in ("idx", "elem", "cidx") and t2.a[0] is arr or t2.op == "elem" and filtered_of(t2.a[0]) is arr):
            return None
        if not skips(c, t2, ev, k, arr, cont):
            return None
    return k if k is not None else e


def filtered_of(v):
    n = 0
    while n < 6:
        n += 1
        if v.op == "filtered":
            v = v.a[0]
        elif v.op == "call" and v.a[0] in ("Iterator::enumerate", "Iterator::rev"):
            v = v.a[1]
        else:
            return v
    return v


def skips(c, t2, ev, k, arr, cont):
    """the unified element is excluded from the remaining conditions"""
    def neq(v, pol):
        return v.op == "bin" and v.a[0] == "Eq" and not pol and (k is None or any(z is k for z in kids(v)))
    if ev is not None and c.g.holds(ev.node, neq):
        return True
    for v in q.subs(cont) + [t2]:
        if v.op == "filtered":
            f = v.a[2]
            if f.op == "un" and f.a[0] == "Not" and f.a[1].op == "bin" and f.a[1].a[0] == "Eq" and (k is None or any(z is k for z in kids(f.a[1]))):
                return True
            if f.op == "bin" and f.a[0] == "Ne" and (k is None or any(z is k for z in kids(f))):
                return True
    for e in c.g.events("call", "Vec::remove"):
        if e.args and e.args[0] is arr and len(e.args) > 1 and (k is None or e.args[1] is k):
            return True
    return False


SCHEMAS = {
    "S-->M, M-->P |- S-->P (ded)": syll("INH", "Tv::ded", 0, 1, 0),
    "S==>M, M==>P |- S==>P (ded)": syll("IMPL", "Tv::ded", 0, 1, 0),
    "S=/>M, M=/>P |- S=/>P (ded)": syll("PREDIMPL", "Tv::ded", 0, 1, 0),
    "S-->M, P-->M |- S-->P (abd)": syll("INH", "Tv::abd", 0, 0, 0),
    "M-->S, M-->P |- S-->P (ind)": syll("INH", "Tv::ind", 1, 1, 0),
    "M-->S, M-->P |- S<->P (comp)": comparison(1),
    "S-->M, P-->M |- S<->P (comp)": comparison(0),
    "M-->S, M-->P |- M-->(S&P) (int)": intersection,
    "M-->[S], M-->[P] |- M-->[S P] (int)": setunion,
    "S==>P, S |- P (ded)": impl_ded,
    "S==>P?, P |- S==>P": question_impl,
}
CONJ = "(C1&&C2&&..)==>P, Ck |- (rest)==>P (ded)"


def conclusions(g):
    for e in g.events("agg"):
        v = e.val
        if v.op == "agg" and v.a[0] == "tuple" and len(v.a) == 6:
            p = v.a[5]
            if any(x.op == "agg" and x.a[0].endswith("EnumPunctation") or x.op == "param" for x in g.leaves(p)):
                t = v.a[3]
                yield e, v


def check(rep):
    g = rep.graph(ENTRY, atoms=ATOMS)
    found = {}
    vals = {}
    n = 0
    for e, val in conclusions(g):
        n += 1
        for v, d in [x for a in q.alts(g, e.node, val) for x in q.unarray(g, *a)]:
            c = Ctx(g, v, d)
            hits = []
            if not (q.variant_of(d, c.punct)[0] == "JUGEMENT"):
                rep.bad("conclusion-is-judgement", e.where, "%s: conclusion %s has punctuation %s, schemas conclude judgements" % (e.where, show(v), show(c.punct)))
                continue
            for x, y in ((1, 4), (4, 1)):
                for name, f in SCHEMAS.items():
                    if f(c, x, y):
                        hits.append((name, x))
                k = conj_ded(c, x, y)
                if k is not None:
                    hits.append((CONJ, x, k))
            if not hits:
                rep.bad("schema", "%s:%s" % (e.inst.fn.path, show(c.term, 5)),
                        "%s: conclusion (%s, tv %s) under [%s] is not an instance of any NAL schema" % (
                            e.where, show(c.term, 5), show(c.tv), q.fmt(d, 20)))
            else:
                tvg = [z for z, p in d if z.op == "bin" and z.a[0] in ("Lt", "Le") and any(
                    w.op == "field" and w.a[1] in ("f", "c") for w in q.subs(z))]
                for hit in hits:
                    found.setdefault(hit, []).append((bool(tvg), e))
                    vals.setdefault(hit, set()).add(val.id)
                hit = hits[0]
                rep.ok("schema", "%s: %s [premise order %s]" % (e.where, hit[0], "a,b" if hit[1] == 1 else "b,a"))
    rep.floor("schema", n, 20, "conclusion constructions")
    # what reaches the result
    out = q.reaching(g)
    for name in SCHEMAS:
        for x in (1, 4):
            o = "a,b" if x == 1 else "b,a"
            h = found.get((name, x))
            if not rep.check(bool(h), "schema-present", "%s (%s)" % (name, o), "no conclusion for schema %s with premise order %s" % (name, o)):
                continue
            rep.check(any(not t for t, _ in h), "unconditional", "%s (%s)" % (name, o),
                      "schema %s is only applied under a condition on the premises' truth values" % name)
            rep.check(bool(vals[(name, x)] & out), "conclusion-returned", "%s (%s)" % (name, o),
                      "the conclusion of schema %s (order %s) is built but never reaches the returned list" % (name, o))
    for x in (1, 4):
        o = "a,b" if x == 1 else "b,a"
        ks = set()
        for h in found:
            if h[0] == CONJ and h[1] == x:
                rep.check(bool(vals[h] & out), "conclusion-returned", "%s[%s] (%s)" % (CONJ, show(h[2]), o),
                          "the conclusion of %s at position %s is built but never returned" % (CONJ, show(h[2])))
                k = h[2]
                if k.op == "const":
                    ks.add(k.a[1])
                elif k.op == "elem" or (k.op == "call"):
                    lim = [z.a[1] for z in q.subs(k) if z.op == "const" and isinstance(z.a[1], int)]
                    ks |= set(range(max(lim))) if lim and max(lim) > 0 else {0, 1, 2, 3}
                else:
                    ks |= {0, 1, 2, 3}
        rep.check({0, 1, 2, 3} <= ks, "schema-present", "%s (%s)" % (CONJ, o), "conjunction positions covered: %s, expected 0..3" % sorted(ks))
