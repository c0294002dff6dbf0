"""C07: term equality is structural identity, copies are identical."""
import adt
import q
from vg import show

LEVEL = "other"
RULE = ("For every pair of term variants the comparison functions are specialised to that pair: for different variants every return is false; for the "
        "same variant 'true' is returned only when every component (from the type declaration) was found equal - lists: same length and every "
        "position compared - and 'false' only when some component was found different. For every variant, copying returns the same variant with "
        "every component copied from the same component, in order. Hashing uses nothing but components and the variant.")
ASSUME = ["std semantics of Vec/String comparison, clone and hash"]
EQ = "Term::checkEqTerm"
PEQ = "<Term::Term as core::cmp::PartialEq>::eq"
CLONE = "<Term::Term as core::clone::Clone>::clone"
HASH = "<Term::Term as core::hash::Hash>::hash"
CEQ = "<Term::Copula as core::cmp::PartialEq>::eq"
CCLONE = "<Term::Copula as core::clone::Clone>::clone"


DELEG = set()


def equality(rep, fn):
    eqs = {EQ, PEQ}
    vs = rep.c.variants(adt.TERM)
    npair = 0
    for a in vs:
        for b in vs:
            g, cs = adt.spec(rep, fn, {1: a, 2: b}, [EQ, PEQ])
            rets = list(g.events("return"))
            tr = {True: 0, False: 0}
            npair += 1
            for e in rets:
                whole = [adt.agg(g, adt.param(g, 1), a), adt.agg(g, adt.param(g, 2), b)]
                for truth, d in adt.cases(g, e):
                    deleg = adt.same_fact(d, whole[0], whole[1], eqs - {fn})
                    if deleg is not None:
                        DELEG.add(fn)
                        tr[truth] += 1
                        rep.check(deleg == truth, "eq-delegates", "%s:%s/%s" % (fn, a, b), "%s: the result is not that of the comparison it is delegated to" % e.where)
                        continue
                    tr[truth] += 1
                    if a != b:
                        rep.check(not truth, "eq-different-kind", "%s:%s/%s" % (fn, a, b), "%s: %s and %s terms may be called equal [%s]" % (e.where, a, b, q.fmt(d)))
                        continue
                    facts = [(nm, adt.comp_fact(g, d, k, x, y, eqs)) for (nm, k, x), (_, _, y) in zip(cs[1], cs[2])]
                    if truth:
                        miss = [nm for nm, f in facts if f is not True]
                        rep.check(not miss, "eq-true-only-if-all-equal", "%s:%s" % (fn, a),
                                  "%s: two %s terms may be called equal although component(s) %s were not found equal [%s]" % (e.where, a, miss, q.fmt(d)))
                    else:
                        rep.check(any(f is False for _, f in facts), "eq-false-only-if-different", "%s:%s" % (fn, a),
                                  "%s: two equal %s terms may be called different [%s]" % (e.where, a, q.fmt(d)))
            rep.check(bool(rets) and (a != b or tr[True] and tr[False]), "eq-decides", "%s:%s/%s" % (fn, a, b), "%s never decides %s/%s" % (fn, a, b))
    return npair


def copy(rep):
    for a in rep.c.variants(adt.TERM):
        g, cs = adt.spec(rep, CLONE, {1: a}, [CLONE])
        n = 0
        for e in g.events("return"):
            for v, d in q.alts(g, e.node, e.val):
                n += 1
                if not rep.check(v.op == "agg" and v.a[1] == a, "copy-same-kind", a, "%s: the copy of a %s term is %s" % (e.where, a, show(v))):
                    continue
                for (nm, k, x), w in zip(cs[1], v.a[3:]):
                    if k == "list":
                        m, why = adt.list_map(g, w, x)
                        okk = m == "same" or m is not None and adt.is_elem(m, x)
                    else:
                        okk, why = w is x, "it is %s" % show(w)
                    rep.check(okk, "copy-component", "%s.%s" % (a, nm), "%s: component %s of a copied %s term is not the original one: %s" % (e.where, nm, a, why))
        rep.check(n > 0, "copy-returns", a, "copying a %s term never returns" % a)


def hashing(rep):
    for a in rep.c.variants(adt.TERM):
        g, cs = adt.spec(rep, HASH, {1: a}, [HASH])
        own = {x.id for _, _, x in cs[1]}
        for e in g.events("call"):
            if e.name and e.name.endswith("hash") or e.name and "Hasher::write" in e.name:
                x = e.args[0] if not e.name.startswith("Hasher") else e.args[-1]
                okk = x.op in ("const", "discr") or x.id in own or any(y.id in own for y in q.subs(x)) or \
                    x.op == "agg" or x.op == "call" and "discriminant" in str(x.a[0]) or x.op == "cast" and any(y.op == "const" for y in q.subs(x))
                bad = any(y.op == "cast" and "ptr" in str(y.a).lower() for y in q.subs(x))
                rep.check(okk and not bad, "hash-by-content", "%s" % a, "%s: the hash of a %s term depends on %s" % (e.where, a, show(x)))


def copula(rep):
    vs = rep.c.variants("Term::Copula")
    for a in vs:
        g0 = None
        for b in vs:
            mk = lambda v: (lambda g: g.pool.mk("agg", "Term::Copula", v, ()))
            g = rep.graph(CEQ, (), args=[mk(a), mk(b)])
            for e in g.events("return"):
                for truth, d in adt.cases(g, e):
                    rep.check(truth == (a == b), "copula-equality", "%s/%s" % (a, b), "%s: copulas %s and %s are called %s" % (e.where, a, b, "equal" if truth else "different"))
        g = rep.graph(CCLONE, (), args=[mk(a)])
        for e in g.events("return"):
            for v, d in q.alts(g, e.node, e.val):
                rep.check(v.op == "agg" and v.a[1] == a, "copula-copy", a, "%s: the copy of copula %s is %s" % (e.where, a, show(v)))


def check(rep):
    vs = rep.c.variants(adt.TERM)
    n = equality(rep, EQ)
    if PEQ in rep.c.fns:
        n += equality(rep, PEQ)
        copula(rep)
    rep.check(len(DELEG) < 2, "eq-delegates", "cycle", "checkEqTerm and == are defined by each other")
    copy(rep)
    if HASH in rep.c.fns:
        hashing(rep)
    rep.floor("eq-pairs", n, 225, "variant pairs")
