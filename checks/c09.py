"""C09: unification is a sound and complete one-way match; substitution is total."""
import adt
import loops
import q
from vg import show, kids

LEVEL = "other"
RULE = ("The recursive matcher behind unify is specialised to every pair of term variants (components from the type declaration). Pattern variable against a "
        "non-variable: success only with the pair (variable, term) appended when the variable is unbound, or with the bound value found equal; failure only "
        "when the bound value differs. Any other pair of different variants, and anything against a variable, fails. Same variant: success only if every "
        "component matched in the same direction with the same assignment list, failure only if one did not. unify returns the assignment list exactly on success. "
        "Substitution: a variable becomes the value of an assignment found for it and stays only after all assignments were compared; every other variant is "
        "rebuilt with each component substituted.")
ASSUME = ["term equality is decided by C07"]
EQ, UNI, SUB = "Term::checkEqTerm", "NarUnify::unify", "NarUnify::unifySubst"
VARS = {"QVar", "DepVar", "IndepVar"}


def bound(g, d, S, me):
    """is variable `me` known (un)bound in assignment list S under d?"""
    r = None
    for v, p in d:
        c = v.a[2] if v.op in ("any", "all", "found") and len(v.a) > 2 else v
        if v.op == "found":
            continue
        neg = False
        if c.op == "un" and c.a[0] == "Not":
            c, neg = c.a[1], True
        if _varcmp(c, S, me):
            if v.op == "any" and not neg or v is c:
                if p:
                    return True
                if v.op == "any" and loops.whole(v.a[0]) is S:
                    r = False
            elif v.op == "all" and neg:
                if not p:
                    return True
                if loops.whole(v.a[0]) is S:
                    r = False
        if v.op == "isv" and v.a[1] == "Some" and v.a[0].op in ("found", "position") and loops.whole(v.a[0].a[0]) is S and _varcmp(v.a[0].a[1], S, me):
            if p:
                return True
            r = False
    if r is None:
        for l in loops.loops(g):
            if S in l.sources() and l.exhausted(d) and all(any(_varcmp(v, S, me) and not p for v, p in dd) for _, dd in l.latches()):
                r = False
    return r


def _varcmp(v, S, me):
    if v.op == "call" and v.a[0] == EQ or v.op == "bin" and v.a[0] == "Eq":
        ks = kids(v)[:2]
        return any(k is me for k in ks) and any(_asg(k, S, "var") for k in ks)
    return False


def _asg(v, S, f):
    if v.op != "field" or v.a[-1] != f:
        return False
    b = v.a[0]
    if loops.element_of(b) is S:
        return True
    return b.op == "vfield" and b.a[0].op == "found" and loops.whole(b.a[0].a[0]) is S


def valeq(d, S, b):
    for v, p in d:
        if v.op == "call" and v.a[0] == EQ or v.op == "bin" and v.a[0] == "Eq":
            ks = kids(v)[:2]
            if any(k is b for k in ks) and any(_asg(k, S, "val") for k in ks):
                return p
    return None


def match(rep, F):
    fn = rep.c.fns[F]
    si = [i for i in range(1, fn.argc + 1) if "Vec<" in fn.locals[i]["t"]]
    if not rep.check(len(si) == 1 and fn.argc == 3, "match-form", F, "%s does not take two terms and an assignment list" % F):
        return
    adt.DIRECTED.add(F)
    vs = rep.c.variants(adt.TERM)
    pairs = 0
    for a in vs:
        for b in vs:
            pairs += 1
            g, cs = adt.spec(rep, F, {1: a, 2: b}, [F, EQ])
            S = adt.param(g, si[0])
            A, B = adt.agg(g, adt.param(g, 1), a), adt.agg(g, adt.param(g, 2), b)
            key = "%s/%s" % (a, b)
            push = [e for e in g.events("call") if e.args and e.args[0] is S and e.name and e.name.startswith(("Vec::", "Extend", "slice::")) and e.name not in adt.READERS and e.name not in ("slice::iter",)]
            n = {True: 0, False: 0}
            again = 0
            for e in g.events("return"):
                for truth, d in adt.cases(g, e):
                    n[truth] += 1
                    if b in VARS or (a != b and a not in VARS):
                        rep.check(not truth, "match-different", key, "%s: a %s term matches a %s term [%s]" % (e.where, a, b, q.fmt(d)))
                    elif a in VARS:
                        bd, ve = bound(g, d, S, A), valeq(d, S, B)
                        if truth:
                            if ve is True:
                                again += 1
                            if bd is True:
                                rep.check(ve is True, "match-consistent", key + ":t", "%s: an already bound variable matches a term without its value being found equal [%s]" % (e.where, q.fmt(d)))
                        else:
                            rep.check(bd is True and ve is not True, "match-variable", key + ":f", "%s: an unbound variable, or one bound to an equal value, fails to match [%s]" % (e.where, q.fmt(d)))
                    else:
                        facts = [(nm, adt.comp_fact(g, d, k, x, y, {F} if k != "data" else set())) for (nm, k, x), (_, _, y) in zip(cs[1], cs[2])]
                        if truth:
                            miss = [nm for nm, f in facts if f is not True]
                            rep.check(not miss, "match-all-components", key, "%s: two %s terms match although component(s) %s were not matched [%s]" % (e.where, a, miss, q.fmt(d)))
                        else:
                            rep.check(any(f is False for _, f in facts), "match-complete", key, "%s: two matching %s terms may be rejected [%s]" % (e.where, a, q.fmt(d)))
            if a in VARS and b not in VARS:
                rep.check(again, "match-again", key, "%s: a variable which is bound never matches an equal term" % F)
                rep.check(len(push) >= 1, "match-binds", key, "%s: a variable is never bound" % F)
                for e in push:
                    okk = e.name == "Vec::push" and e.args[1].op == "agg"
                    fs = dict(zip(e.args[1].a[2], e.args[1].a[3:])) if okk else {}
                    rep.check(okk and fs.get("var") is A and fs.get("val") is B, "match-binds", key + ":pair", "%s: the assignment added is %s, not the variable with the matched term" % (e.where, show(e.args[1]) if len(e.args) > 1 else e.name))
                    rep.check(all(bound(g, d, S, A) is False for d in g.facts_at(e.node)), "match-binds-once", key, "%s: a variable may be bound twice" % e.where)
                # a success on which the variable was unbound passes a push
                for e in g.events("return"):
                    for w, p in (g.leaves_with_edges(e.val) if e.val.op == "phi" else [(e.val, e.node.id)]):
                        if w.op == "const" and w.a[1] is False:
                            continue
                        for d in q._fs(g, g.OUT.get(p) or []):
                            dd = d if w.op == "const" else d + [(w, True)]
                            if bound(g, dd, S, A) is True and valeq(dd, S, B) is True:
                                continue
                            rep.check(bool(push) and any(p == x.node.id or not adt.skips(g, g.root.meta[0].id, None, x.node.id, {p}) for x in push), "match-binds-always", key,
                                      "%s: a variable matches without being bound or having been bound to an equal term [%s]" % (e.where, q.fmt(dd)))
            else:
                rep.check(not push, "match-binds-only-variables", key, "%s: an assignment is added for a %s term matched with a %s term" % (push[0].where if push else F, a, b))
            for e in g.events("call"):
                if e.name == F:
                    rep.check(S in e.args, "match-same-assignments", key, "%s: components are matched with another assignment list" % e.where)
            need = {False} if (b in VARS or a != b and a not in VARS) else {True, False}
            rep.check(all(n[x] for x in need), "match-decides", key, "%s never returns %s for %s/%s" % (F, need, a, b))
    rep.floor("match-pairs", pairs, 225, "variant pairs")


def top(rep, F):
    g = rep.graph(UNI, [F])
    A, B = adt.param(g, 1), adt.param(g, 2)
    if F == UNI:
        return
    ncall = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            f = None
            S = None
            for x, p in d:
                if x.op == "call" and x.a[0] == F:
                    ks = kids(x)
                    if rep.check(ks[0] is A and ks[1] is B, "unify-arguments", UNI, "%s: %s is matched instead of the first term with the second" % (e.where, show(x))):
                        f, S = p, ks[2]
            if v.op == "call" and v.a[0] == "bool::then" or v.op == "optmap":
                f = None
            isn = v.op == "agg" and v.a[1] in ("Some", "None")
            if not isn:
                rep.bad("unify-result", UNI + ":form", "%s: returns %s" % (e.where, show(v)))
                continue
            ncall += 1
            if v.a[1] == "Some":
                rep.check(f is True and v.a[3] is S, "unify-result", UNI + ":some", "%s: an assignment list is returned without a successful match, or another list [%s]" % (e.where, q.fmt(d)))
                rep.check(S is not None and S.op == "new" and not q.contents(g, S), "unify-fresh", UNI, "%s: matching does not start with an empty assignment list" % e.where)
            else:
                rep.check(f is False, "unify-result", UNI + ":none", "%s: no result although the terms match [%s]" % (e.where, q.fmt(d)))
    rep.floor("unify-result", ncall, 2, "results of unify")


def substitution(rep):
    F = SUB
    fn = rep.need(F)
    for var in rep.c.variants(adt.TERM):
        g, cs = adt.spec(rep, F, {1: var}, [F, EQ])
        me = adt.agg(g, adt.param(g, 1), var)
        S = adt.param(g, 2)
        n = m = 0
        for e in g.events("return"):
            for v, d in q.alts(g, e.node, e.val):
                key = "%s:%s" % (F, var)
                if var in VARS:
                    bd = bound(g, d, S, me)
                    if v is me:
                        n += 1
                        rep.check(bd is False, "subst-unassigned", key, "%s: a variable stays although its assignments were not all compared [%s]" % (e.where, q.fmt(d)))
                    elif _asg(v, S, "val"):
                        m += 1
                        same = any(p and _varcmp(x, S, me) and any(k.op == "field" and k.a[0] is v.a[0] for k in kids(x)[:2]) for x, p in d) or \
                            v.a[0].op == "vfield" and v.a[0].a[0].op == "found" and _varcmp(v.a[0].a[0].a[1], S, me) and bd is True
                        rep.check(same, "subst-value", key, "%s: a variable is replaced by the value of another one [%s]" % (e.where, q.fmt(d)))
                    else:
                        rep.bad("subst-value", key + ":form", "%s: a variable is replaced by %s" % (e.where, show(v)))
                elif var == "Name":
                    n, m = 1, 1
                    rep.check(v is me, "subst-name", key, "%s: a name becomes %s" % (e.where, show(v)))
                else:
                    n, m = 1, 1
                    adt.rebuilt(rep, "subst", F, F, var, g, cs[1], v, e, [S])
        rep.check(n and m, "subst-decides", "%s:%s" % (F, var), "%s: a %s is never %s" % (F, var, "left alone" if m else "replaced"))


def check(rep):
    rec = adt.recursive(rep.c, UNI)
    rec = [f for f in rec if f not in (EQ, SUB) and rep.c.fns[f].locals[0]["t"] == "bool" and f in q.reach(rep.c, UNI)]
    rep.floor("match", len(rec), 1, "recursive matcher reachable from unify")
    for F in rec:
        match(rep, F)
        top(rep, F)
    substitution(rep)
