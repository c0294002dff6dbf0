"""C06: single-premise (structural) conclusions instantiate a NAL schema; evidence base is inherited unchanged."""
from vg import V, show, kids
import q

LEVEL = "other"
RULE = ("The single-premise entry point is inlined; every conclusion tuple it builds is taken with the branch conditions holding there and must "
        "instantiate one structural schema (shape test on the premise, components placed correctly, truth value unchanged or negated, only from "
        "judgements, arity established before a fixed-arity rewrite); every schema must be present and reach the returned list. The sentence built "
        "around each conclusion must carry that term/truth/punctuation and exactly the premise's evidence base.")
ASSUME = ["the schema table is transcribed from the NAL specification and the rule comments", "C01 decides the negation truth function"]
ENTRY = "NarWorkingCycle::infSinglePremise"


class Ctx:
    def __init__(self, g, val, d):
        self.g, self.d = g, d
        self.term, self.tv, self.punct, self.bias = val.a[3:7]
        self.A = g.pool.mk("param", 1, g.root.fn.locals[1].get("n"))
        self.TV = g.vfield(g.pool.mk("param", 3, g.root.fn.locals[3].get("n")), "Some", "0")
        self.PU = g.pool.mk("param", 2, g.root.fn.locals[2].get("n"))

    def p(self, *steps):
        v = self.A
        for var, fld in steps:
            v = self.g.vfield(v, var, fld)
        return v

    def cop(self):
        return q.variant_of(self.d, self.p(("Stmt", "0")))[0]

    def is_(self, v, var):
        return q.isv(self.d, v, var) is True

    def stmt(self, cop):
        t = self.term
        if t.op == "agg" and t.a[1] == "Stmt" and t.a[3].op in ("agg", "vfield", "field") and q.variant_of(self.d, t.a[3])[0] == cop:
            return t.a[4], t.a[5]
        return None, None

    def ident(self):
        return self.tv is self.TV

    def lenis(self, arr, n):
        ln = self.g.pool.mk("len", arr)
        for v, p in self.d:
            if p and v.op == "bin" and v.a[0] == "Eq" and any(z is ln for z in kids(v)) and any(q.is_const(z, n) for z in kids(v)):
                return True
        return False

    def item(self, v, arr):
        """index of v in arr: constant, or the element value itself for 'any element'"""
        if v.op == "idx" and v.a[0] is arr:
            return v.a[1].a[1] if v.a[1].op == "const" else "any"
        if v.op == "cidx" and v.a[0] is arr and not v.a[2]:
            return v.a[1]
        if v.op == "elem" and v.a[0] is arr:
            return "any"
        if v.op == "vfield" and v.a[0].op == "call" and v.a[0].a[0] in ("slice::get", "slice::first") and kids(v.a[0])[0] is arr:
            ks = kids(v.a[0])
            if len(ks) == 1:
                return 0
            return ks[1].a[1] if ks[1].op == "const" else "any"
        return None


SUBJ, PRED = ("Stmt", "1"), ("Stmt", "2")


def neg(c):
    return c.is_(c.A, "Neg") and c.term is c.p(("Neg", "0")) and c.tv.op == "call" and c.tv.a[0] == "Tv::neg" and kids(c.tv)[0] is c.TV


def dec(side):
    def f(c):
        s, p = c.stmt("INH")
        if s is None or c.cop() != "INH" or not c.ident():
            return None
        me, other = (s, p) if side == SUBJ else (p, s)
        whole = c.p(side)
        keep = c.p(PRED if side == SUBJ else SUBJ)
        if other is not keep or not c.is_(whole, "IntInt"):
            return None
        return c.item(me, c.p(side, ("IntInt", "0")))
    return f


def prod(k):
    def f(c):
        s, p = c.stmt("INH")
        if s is None or c.cop() != "INH" or not c.ident() or not c.is_(c.p(SUBJ), "Prod"):
            return False
        arr = c.p(SUBJ, ("Prod", "0"))
        if c.item(s, arr) != k or not (p.op == "agg" and p.a[1] == "Img"):
            return False
        rel, ix, rest = p.a[3], p.a[4], p.a[5]
        it = [v for kk, v, _ in q.contents(c.g, rest) if kk == "item"]
        return rel is c.p(PRED) and q.is_const(ix, k) and len(it) == 1 and c.item(it[0], arr) == 1 - k and c.lenis(arr, 2)
    return f


def img(k):
    def f(c):
        s, p = c.stmt("INH")
        if s is None or c.cop() != "INH" or not c.ident() or not c.is_(c.p(PRED), "Img"):
            return False
        rel, ix, arr = c.p(PRED, ("Img", "0")), c.p(PRED, ("Img", "1")), c.p(PRED, ("Img", "2"))
        if p is not rel or not (s.op == "agg" and s.a[1] == "Prod"):
            return False
        it = [v for kk, v, _ in q.contents(c.g, s.a[3]) if kk == "item"]
        if len(it) != 2 or it[k] is not c.p(SUBJ) or c.item(it[1 - k], arr) != 0:
            return False
        okix = any(pp and v.op == "bin" and v.a[0] == "Eq" and any(z is ix for z in kids(v)) and any(q.is_const(z, k) for z in kids(v)) for v, pp in c.d)
        return okix and c.lenis(arr, 1)
    return f


def par(c):
    s, p = c.stmt("PREDIMPL")
    if s is None or c.cop() != "PREDIMPL" or not c.ident() or not c.is_(c.p(PRED), "Par"):
        return False
    return s is c.p(SUBJ) and c.item(p, c.p(PRED, ("Par", "0"))) == "any"


def sets(kind):
    def f(c):
        s, p = c.stmt("SIM")
        if s is None or c.cop() != "SIM" or not c.ident():
            return False
        if not (c.is_(c.p(SUBJ), kind) and c.is_(c.p(PRED), kind)):
            return False
        a, b = c.p(SUBJ, (kind, "0")), c.p(PRED, (kind, "0"))
        return c.item(s, a) == 0 and c.item(p, b) == 0 and c.lenis(a, 1) and c.lenis(b, 1)
    return f


SCHEMAS = {
    "(!S) |- S (negation)": neg,
    "(X*Y)-->R |- X-->(R /0 Y)": prod(0),
    "(X*Y)-->R |- Y-->(R /1 X)": prod(1),
    "X-->(R /0 Y) |- (X*Y)-->R": img(0),
    "Y-->(R /1 X) |- (X*Y)-->R": img(1),
    "X=/>(A;B..) |- X=/>A": par,
    "[S]<->[P] |- S<->P": sets("SetInt"),
    "{S}<->{P} |- S<->P": sets("SetExt"),
}
IDX = {"(X|Y..)-->P |- X-->P": dec(SUBJ), "S-->(X|Y..) |- S-->X": dec(PRED)}


def check(rep):
    g = rep.graph(ENTRY, atoms=["Tv::neg"])
    found = {}
    n = 0
    out = q.reaching(g)
    for e in g.events("agg"):
        val = e.val
        if not (val.op == "agg" and val.a[0] == "tuple" and len(val.a) == 7):
            continue
        n += 1
        for v, d in [x for a in q.alts(g, e.node, val) for x in q.unarray(g, *a)]:
            c = Ctx(g, v, d)
            if not rep.check(c.is_(c.PU, "JUGEMENT") and q.variant_of(d, c.punct)[0] == "JUGEMENT", "judgement-from-judgement", e.inst.fn.path,
                             "%s: conclusion %s is drawn although the premise is not known to be a judgement (a question has no truth value) [%s]" % (e.where, show(c.term), q.fmt(d))):
                continue
            b = c.bias
            rep.check(b.op != "const" or 0 < float(b.a[1]) <= 1.0, "attention-bias", e.where, "attention factor %s outside (0,1]" % show(b))
            hit = [nm for nm, f in SCHEMAS.items() if f(c)]
            hit += [(nm, f(c)) for nm, f in IDX.items() if f(c) is not None]
            if not hit:
                rep.bad("schema", "%s:%s" % (e.inst.fn.path, show(c.term, 5)), "%s: conclusion (%s, tv %s) under [%s] is not an instance of any structural schema" % (
                    e.where, show(c.term, 5), show(c.tv), q.fmt(d, 20)))
            for h in hit:
                rep.ok("schema", "%s: %s" % (e.where, h))
                found.setdefault(h, set()).add(val.id)
    rep.floor("schema", n, 10, "structural conclusion constructions")
    for nm in SCHEMAS:
        if rep.check(nm in found, "schema-present", nm, "no conclusion instantiates %s" % nm):
            rep.check(bool(found[nm] & out), "conclusion-returned", nm, "the conclusion of %s never reaches the returned list" % nm)
    for nm in IDX:
        ks = {h[1] for h in found if isinstance(h, tuple) and h[0] == nm}
        rep.check("any" in ks or {0, 1, 2} <= ks, "schema-present", nm, "%s covers only components %s" % (nm, sorted(ks)))
        for h in found:
            if isinstance(h, tuple) and h[0] == nm:
                rep.check(bool(found[h] & out), "conclusion-returned", h, "the conclusion of %s never reaches the returned list" % (h,))
    wrapper(rep)


def wrapper(rep):
    """the sentence around a structural conclusion"""
    fn = "NarWorkingCycle::infSinglePremise2"
    g = rep.graph(fn, atoms=[ENTRY, "NarSentence::retTv"])
    calls = list(g.events("call", ENTRY))
    rep.check(len(calls) >= 1, "wrapper", "calls the rules", "%s never applies the single-premise rules" % fn)
    A = g.pool.mk("param", 1, g.root.fn.locals[1].get("n"))
    for e in calls:
        rep.check(e.args[0] is g.field(A, "term") and e.args[1] is g.field(A, "punct") and e.args[2].op == "call" and
                  e.args[2].a[0] == "NarSentence::retTv" and kids(e.args[2])[0] is A, "wrapper-args", e.where,
                  "%s: the rules are applied to %s, not to the premise's own term, punctuation and truth value" % (e.where, [show(x) for x in e.args]))
    ns = 0
    for e in g.events("agg"):
        v = e.val
        if v.a[0] != "NarSentence::Sentence":
            continue
        ns += 1
        f = dict(zip(v.a[2], v.a[3:]))
        st = f["stamp"]
        rep.check(st is g.field(A, "stamp"), "evidence-inherited", e.where, "%s: conclusion stamp is %s, expected exactly the premise's" % (e.where, show(st)))
        concl = lambda x, i: x.op == "field" and x.a[1] == i and any(z.op == "elem" for z in q.subs(x)) and any(z.op == "call" and z.a[0] == ENTRY for z in q.subs(x))
        rep.check(concl(f["term"], "0"), "wrapper-term", e.where, "%s: conclusion term is %s" % (e.where, show(f["term"])))
        rep.check(concl(f["punct"], "2"), "wrapper-punct", e.where, "%s: conclusion punctuation is %s" % (e.where, show(f["punct"])))
        ev = f["evi"]
        okev = False
        for x in g.expand(ev):
            if x.op == "agg" and x.a[1] == "Some" and x.a[3].op == "agg" and x.a[3].a[1] == "TV" and concl(x.a[3].a[3], "1"):
                okev = True
            elif x.op == "agg" and x.a[1] == "None":
                rep.bad("wrapper-evidence", e.where, "%s: conclusion without evidence" % e.where)
        rep.check(okev, "wrapper-evidence", e.where, "%s: conclusion evidence is %s" % (e.where, show(ev)))
    rep.floor("wrapper", ns, 1, "conclusion sentences")
    res = q.contents_at_return(g)
    rep.check(any(k == "item" for k, v, _ in res), "wrapper-returned", fn, "conclusions are not returned")
