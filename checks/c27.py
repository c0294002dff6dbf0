"""C27: derivatives, vectors, images and classifiers compute what they are defined to."""
import sympy as sp
import adt
import arith
import best
import loops
import q
import rank
from c01 import alternatives, _alt
from c13 import is_field
from c15 import call, payload, best_together
from c22 import fnum
from sym import equal, NotNumeric
from vg import show, kids, V

LEVEL = "other"
RULE = ("Numbers: the result of each function is extracted from the value graph as an algebraic expression of its arguments (sums over loops as initial value and addend, element-wise results as index and value, "
        "loop variables normalised to offset plus count) and compared with the definition: value and derivative of each differentiable operation, dot product, length, cosine, maps read and written by row and column within their "
        "bounds only, crop, sum, difference, quotient and squared norm of maps, convolution over the whole kernel, boxes, circles and lines. Networks: parameters are used one after the other, the derivative is marked at exactly the index asked for. "
        "Classifiers: one similarity per prototype, the greatest not below 0.5 wins, learning changes the prototype found (all channels, its count, its time) or adds one, and nothing is changed if learning isn't asked for.")
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic", "f64::exp is the exponential function"]
M = "Map2d::"
S = sp.Symbol


def e_of(x):
    """powers of one exponential"""
    return x.replace(lambda y: isinstance(y, sp.exp), lambda y: S("E") ** sp.Integer(1) if y.args[0] == S("a.r") else (S("E") ** sp.expand(y.args[0] / S("a.r")) if sp.expand(y.args[0] / S("a.r")).is_Integer else y))


def returns(g):
    out = []
    for e in g.events("return"):
        out += alternatives(g, e.val, g.facts_at(e.node))
    return out


def eq(a, b):
    return equal(e_of(a), e_of(b))


# ---------------------------------------------------------------- automatic differentiation
def ad(rep):
    ar, ad_, br, bd = (S(x) for x in ("a.r", "a.d", "b.r", "b.d"))
    E = sp.exp(ar)
    REF = {"add": (ar + br, ad_ + bd), "sub": (ar - br, ad_ - bd), "mul": (ar * br, ar * bd + ad_ * br), "div": (ar / br, (ad_ * br - ar * bd) / br ** 2),
           "exp": (E, ad_ * E), "sigmoidAct": (E / (E + 1), ad_ * E / (E + 1) ** 2)}
    for n, ref in REF.items():
        f = "ad::" + n
        if not rep.need(f) if hasattr(rep, "need") else f not in rep.c.fns:
            continue
        g = rep.graph(f)
        nm = arith.Names(g, {1: "a", 2: "b"})
        k = 0
        for v, d in returns(g):
            for c, rf in zip("rd", ref):
                for w, d2 in _alt(g, g.field(v, c), d, 6):
                    k += 1
                    try:
                        got = nm.s(w)
                    except NotNumeric as e:
                        rep.bad("derivative", n + "." + c, "%s: %s is no closed expression: %s" % (f, c, e))
                        continue
                    rep.check(eq(got, rf), "derivative", n + "." + c, "%s: the %s is %s, the definition is %s" % (f, "value" if c == "r" else "derivative", sp.simplify(got), rf))
        rep.floor("derivative", k, 2, "results of " + f)
    relu(rep)
    dot(rep)
    neuron(rep)


def relu(rep):
    g = rep.graph("ad::reluAct")
    p = adt.param(g, 1)
    r, d_ = g.field(p, "r"), g.field(p, "d")
    k = 0
    for v, d in returns(g):
        for c in "rd":
            for w, d2 in _alt(g, g.field(v, c), d, 6):
                k += 1
                pos = [x for v2, pl in (d2 or d) for x in [rank.less(v2, pl)] if x and x[1] is r and fnum(x[0]) == 0]
                neg = [x for v2, pl in (d2 or d) for x in [rank.less(v2, pl)] if x and x[0] is r and fnum(x[1]) == 0]
                if w is (r if c == "r" else d_):
                    rep.check(bool(pos), "derivative", "relu-on", "ad::reluAct: the argument is passed on though it isn't known to be positive [%s]" % q.fmt(d2 or d))
                elif fnum(w) == 0:
                    rep.check(bool(neg) and not (pos and not neg), "derivative", "relu-off", "ad::reluAct: the result is 0 though the argument isn't known to be negative [%s]" % q.fmt(d2 or d))
                elif c == "r" and w.op == "call" and w.a[0].split("::")[-1] == "max" and {x.id for x in kids(w) if x is r} and any(fnum(x) == 0 for x in kids(w)):
                    rep.ok("derivative", "relu-max")
                else:
                    rep.bad("derivative", "relu." + c, "ad::reluAct: %s is %s" % (c, show(w)))
    rep.floor("derivative", k, 2, "results of ad::reluAct")


def summed(rep, rule, f, s, want, at0=None, nm=None):
    """the sum is that of `want` over all elements"""
    if not rep.check(s is not None, rule, f + ":sum", "%s: the result is no sum over the elements" % f):
        return
    for w in s.why:
        rep.bad(rule, f + ":all", "%s: %s" % (f, w))
    for a in s.adds:
        if eq(a, want):
            rep.check(s.init == 0, rule, f + ":init", "%s: the sum starts with %s" % (f, s.init))
            rep.ok(rule, f + ":addend")
            continue
        # the first element is taken before a loop which starts with the second one
        later = [x for x in a.free_symbols if "[" in x.name]
        idx = {x.name[x.name.index("[") + 1:x.name.rindex("]")] for x in later}
        if len(idx) == 1 and at0 is not None:
            i = idx.pop()
            ok = eq(sp.expand(a), sp.expand(want.subs({y: S(y.name.replace("[i]", "[" + i + "]")) for y in want.free_symbols}, simultaneous=True))) and \
                any(i.replace(" ", "") in ("i<len(%s)-1>+1" % x, "1+i<len(%s)-1>" % x) for x in "ab")
            if rep.check(ok, rule, f + ":addend", "%s: %s is added up, the definition is %s" % (f, a, want)):
                rep.check(eq(s.init, want.subs({y: S(y.name.replace("[i]", "[0]")) for y in want.free_symbols}, simultaneous=True)), rule, f + ":init", "%s: the sum starts with %s" % (f, s.init))
            continue
        rep.bad(rule, f + ":addend", "%s: %s is added up, the definition is %s" % (f, a, want))


ALIAS = {"i<len(a)>": "i", "i<len(b)>": "i", "i<a.h>": "y", "i<a.w>": "x"}


def dot(rep):
    f = "ad::dot"
    g = rep.graph(f)
    nm = arith.Names(g, {1: "a", 2: "b"}, ALIAS)
    ar, ad_, br, bd = (S(x) for x in ("a[i].r", "a[i].d", "b[i].r", "b[i].d"))
    n = 0
    for e in g.events("return"):
        for c, want in (("r", ar * br), ("d", ar * bd + ad_ * br)):
            n += 1
            s = arith.summation(g, g.field(e.val, c), nm)
            summed(rep, "derivative", f + "." + c, s, want, at0=True)
    rep.floor("derivative", n, 2, "results of ad::dot")


def neuron(rep):
    f = "ad::calc"
    acts = ["ad::dot", "ad::add", "ad::reluAct", "ad::sigmoidAct"]
    g = rep.graph(f, atoms=acts)
    x, n = adt.param(g, 1), adt.param(g, 2)
    ws, b, act = g.field(n, "weights"), g.field(n, "bias"), g.field(n, "act")

    def net(v):
        return call(v, "ad::add") and any(call(p, "ad::dot") and {p.a[1].id, p.a[2].id} == {x.id, ws.id} and o is b for p, o in ((v.a[1], v.a[2]), (v.a[2], v.a[1])))
    k = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            k += 1
            isr, iss = call(v, "ad::reluAct"), call(v, "ad::sigmoidAct")
            if not rep.check((isr or iss) and net(v.a[1]), "neuron", "sum", "ad::calc: the activation is %s" % show(v)):
                continue
            z = lambda v2, p: v2.op == "bin" and v2.a[0] == "Eq" and p == isr and any(y is act for y in kids(v2)) and any(loops.ival(y) == 0 for y in kids(v2)) or v2 is act and not p and isr
            nz = lambda v2, p: v2.op == "bin" and v2.a[0] == "Eq" and not p and any(y is act for y in kids(v2)) and any(loops.ival(y) == 0 for y in kids(v2))
            rep.check(best.has(d, z if isr else nz) or any(v2.op == "match" for v2, p in d) or sw(d, act, isr), "neuron", "act", "ad::calc: %s is applied [%s]" % (v.a[0], q.fmt(d)))
    rep.floor("neuron", k, 2, "activations of a neuron")


def sw(d, act, zero):
    """a match on the kind of activation"""
    for v, p in d:
        if any(y is act for y in q.subs(v)) and v.op == "bin" and v.a[0] == "Eq":
            k = [loops.ival(y) for y in kids(v) if loops.ival(y) is not None]
            if k == [0] and p == zero:
                return True
    return False


# ---------------------------------------------------------------- vectors
def vectors(rep):
    a, b = S("a[i]"), S("b[i]")
    for n, want in (("vecAddScale", a + b * S("w")), ("vecAdd", a + b), ("vecScale", a * S("b"))):
        f = "mlutils::" + n
        g = rep.graph(f)
        nm = arith.Names(g, {1: "a", 2: "b", 3: "w"}, ALIAS)
        k = 0
        for e in g.events("return"):
            out, why = arith.elementwise(g, e.val, nm)
            for w in why:
                rep.bad("vector", n + ":all", "%s: %s" % (f, w))
            for i, v in out:
                k += 1
                rep.check(i is None or i == S("i"), "vector", n + ":index", "%s: the element %s is set" % (f, i))
                got = nm.s(v)
                rep.check(eq(got, want), "vector", n, "%s: an element is %s, the definition is %s" % (f, got, want))
            if e.val.op == "call" and e.val.a[0].endswith("from_elem"):
                rep.check(loops.len_of(e.val.a[2]) in (adt.param(g, 1), adt.param(g, 2)), "vector", n + ":len", "%s: the result has %s elements" % (f, show(e.val.a[2])))
        rep.floor("vector", k, 1, "elements set by " + f)
    for n, want, post in (("vecDot", a * b, None), ("vecLen", a ** 2, "sqrt")):
        f = "mlutils::" + n
        g = rep.graph(f)
        nm = arith.Names(g, {1: "a", 2: "b"}, ALIAS)
        for e in g.events("return"):
            v = e.val
            if post:
                if not rep.check(call(v, "f64::sqrt"), "vector", n + ":root", "%s: the result is %s" % (f, show(v))):
                    continue
                v = v.a[1]
            if call(v, "mlutils::vecDot"):
                v = v
            summed(rep, "vector", f, arith.summation(g, v, nm), want, at0=True)
    f = "mlutils::calcCosineSim"
    g = rep.graph(f, atoms=["mlutils::vecDot", "mlutils::vecLen"])
    p1, p2 = adt.param(g, 1), adt.param(g, 2)

    class N(arith.Names):
        def name(self, v):
            if call(v, "mlutils::vecDot"):
                return {frozenset((p1.id, p2.id)): S("dot"), frozenset((p1.id,)): S("la") ** 2, frozenset((p2.id,)): S("lb") ** 2}.get(frozenset((v.a[1].id, v.a[2].id)), S("?"))
            if call(v, "mlutils::vecLen"):
                return {p1.id: S("la"), p2.id: S("lb")}.get(v.a[1].id, S("?"))
            return super().name(v)
    nm = N(g, {1: "a", 2: "b"})
    for v, d in returns(g):
        got = nm.s(v).subs({sp.sqrt(S("la") ** 2): S("la"), sp.sqrt(S("lb") ** 2): S("lb")})
        rep.check(eq(got, S("dot") / (S("la") * S("lb"))), "vector", "cosine", "%s is %s" % (f, got))


# ---------------------------------------------------------------- maps
def bounds(d, y, x, w, h):
    """what is known to be outside: set of violated sides; or None"""
    out = set()
    for v, p in d:
        c = rank.less(v, p)
        if not c:
            continue
        lo, hi, strict = c
        for k, n, t in (("y", h, y), ("x", w, x)):
            if lo is t and loops.ival(hi) == 0 and strict or lo is t and loops.ival(hi) == -1:
                out.add(k + "<0")
            if lo is n and hi is t and not strict:
                out.add(k + ">=")
            if loops.ival(lo) == 0 and hi is t and not strict or loops.ival(lo) == -1 and hi is t and strict:
                out.add(k + "ok0")
            if lo is t and hi is n and strict:
                out.add(k + "ok1")
        for k, n, t in (("y", h, y), ("x", w, x)):
            if v.op == "call" and v.a[0].endswith("contains") and v.a[2] is t and v.a[1].op == "agg":
                f = dict(zip(v.a[1].a[2], v.a[1].a[3:]))
                if loops.ival(f.get("start")) == 0 and f.get("end") is n and "Inclusive" not in str(v.a[1].a[0]):
                    out |= {k + "ok0", k + "ok1"} if p else {k + "<0"}
    return out


OK = {"yok0", "yok1", "xok0", "xok1"}
OUT = {"y<0", "y>=", "x<0", "x>="}


def contains(d, y, x, w, h):
    out = bounds(d, y, x, w, h)
    for v, p in d:
        if v.op == "call" and v.a[0].split("::")[-1] == "contains" and len(v.a) > 2 and v.a[1].op == "agg":
            f = dict(zip(v.a[1].a[2], v.a[1].a[3:]))
            for k, n, t in (("y", h, y), ("x", w, x)):
                if v.a[2] is t and loops.ival(f.get("start")) == 0 and f.get("end") is n and "Inclusive" not in str(v.a[1].a[0]):
                    out |= {k + "ok0", k + "ok1"} if p else {k + "<0"}
    return out


def cell(g, t, arr, y, x, w):
    if t.op != "idx" or t.a[0] is not arr:
        return False
    nm = arith.Names(g, {})
    nm.extra = {y.id: S("Y"), x.id: S("X"), w.id: S("W")}
    try:
        return equal(sp.expand(nm.s(t.a[1])), S("Y") * S("W") + S("X"))
    except NotNumeric:
        return False


def maps(rep):
    # reading
    f = M + "readAt"
    g = rep.graph(f)
    m, y, x = (adt.param(g, i) for i in (1, 2, 3))
    w, h, arr = (g.field(m, n) for n in ("w", "h", "arr"))
    k = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            b = contains(d, y, x, w, h)
            k += 1
            if v.op == "idx":
                rep.check(cell(g, v, arr, y, x, w), "map", "read-cell", "readAt: %s is read" % show(v))
                rep.check(OK <= b, "map", "read-in", "readAt: a cell is read though the position isn't known to be inside [%s]" % q.fmt(d))
            elif v.op == "call" and v.a[0].endswith("default"):
                rep.check(bool(b & OUT), "map", "read-out", "readAt: the default is returned though the position isn't known to be outside [%s]" % q.fmt(d))
            else:
                rep.bad("map", "read", "readAt: %s is returned" % show(v))
    rep.floor("map", k, 2, "values read")
    f = M + "writeAt"
    g = rep.graph(f)
    m, y, x, val = (adt.param(g, i) for i in (1, 2, 3, 4))
    w, h, arr = (g.field(m, n) for n in ("w", "h", "arr"))
    ws = [(t, v, e) for t, v, e in q.writes(g) if g.nodes[e.node.id].facts and best.root(t) is not t or t.op == "idx"]
    ns = set()
    for t, v, e in ws:
        ns.add(e.node.id)
        rep.check(cell(g, t, arr, y, x, w) and v is val, "map", "write-cell", "writeAt: %s becomes %s" % (show(t), show(v)))
        for d in g.facts_at(e.node):
            rep.check(OK <= contains(d, y, x, w, h), "map", "write-in", "writeAt: a cell is written though the position isn't known to be inside [%s]" % q.fmt(d))
    rep.floor("map", len(ws), 1, "values written")
    for u, s, ds in rank.avoid(g, 0, ns, {r.id for r in g.root.retnodes}, panics=False):
        for d in ds:
            rep.check(bool(contains(d, y, x, w, h) & OUT), "map", "write-out", "writeAt: nothing is written though the position isn't known to be outside [%s]" % q.fmt(d))
    # making
    f = M + "makeMap2d"
    g = rep.graph(f)
    for e in g.events("return"):
        made(rep, g, e.val, adt.param(g, 1), adt.param(g, 2), "makeMap2d")
    # copies
    g = rep.graph(M + "clone")
    p = adt.param(g, 1)
    for e in g.events("return"):
        v = e.val
        rep.check(v is p or v.op == "agg" and all(y2 is g.field(p, n) for n, y2 in zip(v.a[2], v.a[3:])), "map", "clone", "clone: the copy is %s" % show(v))
    pixels(rep)


def made(rep, g, v, h, w, name):
    if not rep.check(v.op == "agg" and str(v.a[0]).endswith("Map2d"), "map", name, "%s: the result is %s" % (name, show(v))):
        return
    f = dict(zip(v.a[2], v.a[3:]))
    rep.check(f["h"] is h and f["w"] is w, "map", name + ":size", "%s: the map is %s wide and %s high" % (name, show(f["w"]), show(f["h"])))
    a = f["arr"]
    n = a.a[2] if a.op == "call" and a.a[0].endswith("from_elem") else None
    if n is None and a.op in ("mapped", "call", "new"):
        return
    nm = arith.Names(g, {})
    nm.extra = {h.id: S("H"), w.id: S("W")}
    try:
        ok = n is not None and equal(nm.s(n), S("H") * S("W"))
    except NotNumeric:
        ok = False
    rep.check(ok, "map", name + ":cells", "%s: the map has %s cells" % (name, show(n) if n else show(a)))


MA = [M + "readAt", M + "writeAt", M + "makeMap2d"]


def pixels(rep):
    A, B = S("a[y;x]"), S("b[y;x]")
    for n, want in (("sub", A - B), ("add", A + B), ("divScalar", A / S("b"))):
        f = M + n
        g = rep.graph(f, atoms=MA)
        p = adt.param(g, 1)
        nm = arith.Names(g, {1: "a", 2: "b"}, ALIAS)
        k = 0
        for e in g.events("return"):
            v = e.val
            size(rep, g, v, g.field(p, "h"), g.field(p, "w"), n, p)
            out, why = arith.elementwise(g, v, nm)
            for w in why:
                rep.bad("map", n + ":all", "%s: %s" % (f, w))
            for i, x in out:
                k += 1
                rep.check(i is None or i == (S("y"), S("x")) or str(i).replace(" ", "") in ("a.w*y+x", "x+a.w*y"), "map", n + ":index", "%s: the cell %s is set" % (f, i))
                rep.check(eq(nm.s(x), want), "map", n, "%s: a cell is %s, the definition is %s" % (f, nm.s(x), want))
        rep.floor("map", k, 1, "cells set by " + f)
    # squared norm
    f = M + "distPow2"
    g = rep.graph(f, atoms=MA)
    nm = arith.Names(g, {1: "a"}, ALIAS)
    for e in g.events("return"):
        summed(rep, "map", f, arith.summation(g, e.val, nm), A ** 2)
    # crop
    f = M + "crop"
    g = rep.graph(f, atoms=MA)
    nm = arith.Names(g, {1: "m", 2: "cx", 3: "cy", 4: "sx", 5: "sy"}, {"i<sy>": "y", "i<sx>": "x"})
    k = 0
    for e in g.events("return"):
        v = e.val
        if v.op == "agg":
            made(rep, g, v, adt.param(g, 5), adt.param(g, 4), "crop")
        out, why = arith.elementwise(g, v, nm)
        for w in why:
            rep.bad("map", "crop:all", "%s: %s" % (f, w))
        for i, x in out:
            k += 1
            rep.check(i is None or i == (S("y"), S("x")), "map", "crop:index", "%s: the cell %s is set" % (f, i))
            got = at(g, nm, x)
            rep.check(got is not None and got[0] is adt.param(g, 1) and got[1:] == (S("cy") + S("y"), S("cx") + S("x")), "map", "crop", "%s: a cell becomes %s" % (f, show(x)))
    rep.floor("map", k, 1, "cells set by " + f)
    draw(rep)


def at(g, nm, v):
    """(map, y, x) of a cell"""
    if call(v, M + "readAt"):
        return v.a[1], sp.expand(nm.s(v.a[2])), sp.expand(nm.s(v.a[3]))
    return None


def size(rep, g, v, h, w, n, p):
    if call(v, M + "makeMap2d"):
        rep.check(v.a[1] is h and v.a[2] is w, "map", n + ":size", "%s: the result is a map of %s rows and %s columns" % (n, show(v.a[1]), show(v.a[2])))
    elif v.op == "agg":
        f = dict(zip(v.a[2], v.a[3:]))
        rep.check(f["h"] is h and f["w"] is w, "map", n + ":size", "%s: the result is %s wide and %s high" % (n, show(f["w"]), show(f["h"])))


def writes_at(g, m):
    return [e for e in g.events("call") if e.name == M + "writeAt" and e.args[0] is m and g.nodes[e.node.id].facts]


def complete(rep, rule, n, g, es, excuse=lambda d: False):
    for e in es:
        ls = [l for l in loops.loops(g) if e.node.id in l.body]
        for l in ls:
            for u, y, d in l.early():
                if g.nodes[y].facts:
                    rep.bad(rule, n + ":all", "%s: the loop ends early [%s]" % (e.where, q.fmt(d)))
        inner = [l for l in ls if not any(k is not l and k.body < l.body for k in ls)]
        for l in inner:
            for u, y, ds in rank.avoid(g, l.head, {x.node.id for x in es}, {l.head}, l.body):
                for d in ds:
                    if not l.exhausted(d):
                        rep.check(rank.known(g, d, excuse), rule, n + ":all", "%s: a cell may be left out [%s]" % (e.where, q.fmt(d)))


def draw(rep):
    f = M + "map2dDrawBox"
    g = rep.graph(f, atoms=MA)
    nm = arith.Names(g, {2: "cx", 3: "cy", 4: "w", 5: "h"}, {"i<h>": "y", "i<w>": "x"})
    es = writes_at(g, adt.param(g, 1))
    rep.floor("draw", len(es), 1, "cells of a box")
    for e in es:
        rep.check((sp.expand(nm.s(e.args[1])), sp.expand(nm.s(e.args[2]))) == (S("cy") + S("y"), S("cx") + S("x")) and e.args[3] is adt.param(g, 6), "draw", "box", "%s: the cell (%s, %s) becomes %s" % (e.where, nm.s(e.args[1]), nm.s(e.args[2]), show(e.args[3])))
    complete(rep, "draw", "box", g, es)
    f = M + "map2dDrawCircle"
    g = rep.graph(f, atoms=MA)
    nm = arith.Names(g, {2: "cx", 3: "cy", 4: "r"})
    es = writes_at(g, adt.param(g, 1))
    rep.floor("draw", len(es), 1, "cells of a circle")
    for e in es:
        dy, dx = (sp.expand(nm.s(e.args[i]) - S(c)) for i, c in ((1, "cy"), (2, "cx")))
        rep.check(e.args[3] is adt.param(g, 5), "draw", "circle-value", "%s: a cell of the circle becomes %s" % (e.where, show(e.args[3])))
        inside = lambda d: best.has(d, lambda v, p: within(nm, v, p, dy, dx, True))
        for d in g.facts_at(e.node):
            rep.check(rank.known(g, d, inside), "draw", "circle-in", "%s: a cell is drawn which isn't known to be within the radius [%s]" % (e.where, q.fmt(d)))
        for t in (dy, dx):
            off = [s for s in t.free_symbols if s.name.startswith("i<")]
            lo = sp.expand(t - off[0]) if len(off) == 1 else None
            hi = sp.expand(lo + sp.sympify(off[0].name[2:-1], locals={"r": S("r")}) - 1) if lo is not None else None
            ok = lo is not None and (lo + S("r")).is_Integer and lo + S("r") <= 0 and (hi - S("r")).is_Integer and hi - S("r") >= 0
            rep.check(ok, "draw", "circle-range", "%s: the circle is drawn from %s to %s" % (e.where, lo, hi))
        outside = lambda d: best.has(d, lambda v, p: within(nm, v, p, dy, dx, False))
        complete(rep, "draw", "circle", g, es, outside)
    f = M + "drawLine"
    g = rep.graph(f, atoms=MA)
    nm = arith.Names(g, {1: "m", 2: "ax", 3: "ay", 4: "bx", 5: "by"}, {"i<m.h>": "y", "i<m.w>": "x"})
    es = writes_at(g, adt.param(g, 1))
    rep.floor("draw", len(es), 1, "cells of a line")
    x, y, ax, ay, bx, by = (S(c) for c in ("x", "y", "ax", "ay", "bx", "by"))
    L = sp.sqrt((bx - ax) ** 2 + (by - ay) ** 2)
    t = ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / L
    far = (x - ax - t * (bx - ax) / L) ** 2 + (y - ay - t * (by - ay) / L) ** 2
    pt = {x: sp.Rational(7, 2), y: sp.Rational(5, 3), ax: sp.Rational(1, 4), ay: sp.Rational(2, 7), bx: 9, by: sp.Rational(31, 3)}
    pt2 = {x: -3, y: sp.Rational(19, 3), ax: sp.Rational(13, 4), ay: 5, bx: -1, by: sp.Rational(1, 3)}
    same = lambda a, b: all(abs(sp.N((a - b).subs(z), 40)) < sp.Float("1e-30") for z in (pt, pt2))
    for e in es:
        rep.check((nm.s(e.args[1]), nm.s(e.args[2])) == (y, x) and e.args[3] is adt.param(g, 6), "draw", "line-cell", "%s: the cell (%s, %s) becomes %s" % (e.where, nm.s(e.args[1]), nm.s(e.args[2]), show(e.args[3])))

        def side(d, outside=False):
            got = set()
            for v, p in d:
                c = rank.less(v, p)
                if not c:
                    continue
                try:
                    lo, hi = nm.s(c[0]), nm.s(c[1])
                except (NotNumeric, TypeError):
                    continue
                if any(str(z).startswith("v") and str(z)[1:].isdigit() for z in lo.free_symbols | hi.free_symbols):
                    continue
                for k, a, b in (("after", sp.Integer(0), t), ("before", t, L)):
                    if same(lo, a) and same(hi, b):
                        got.add(k)
                    if same(lo, b) and same(hi, a):
                        got.add("not")
                for r, sq in ((lo, hi), (hi, lo)):
                    if r.is_number and r > 0:
                        for w, k in ((far, r), (far ** sp.Rational(1, 2), r)):
                            if same(sq, w):
                                got.add("near" if r is hi else "not")
            return bool(got & {"not"}) if outside else {"after", "before", "near"} <= got
        for d in g.facts_at(e.node):
            rep.check(rank.known(g, d, side), "draw", "line-in", "%s: a cell is drawn which isn't known to be next to the line between its ends [%s]" % (e.where, q.fmt(d)))
        complete(rep, "draw", "line", g, es, lambda d: side(d, True))


def within(nm, v, p, dy, dx, want):
    c = rank.less(v, p)
    if not c:
        return False
    try:
        lo, hi = sp.expand(nm.s(c[0])), sp.expand(nm.s(c[1]))
    except NotNumeric:
        return False
    d2, r2 = sp.expand(dy ** 2 + dx ** 2), S("r") ** 2
    if want:
        return equal(lo - hi, d2 - r2)
    return equal(lo - hi, r2 - d2)


# ---------------------------------------------------------------- convolution
def conv(rep):
    for n in ("convo", "convWithoutBorder"):
        f = "ModVisionC::" + n
        g = rep.graph(f, atoms=MA)
        nm = arith.Names(g, {1: "a", 2: "k"}, {"i<k.h>": "ky", "i<k.w>": "kx"})
        k = 0
        for e in g.events("return"):
            size(rep, g, e.val, g.field(adt.param(g, 1), "h"), g.field(adt.param(g, 1), "w"), n, None)
            es = writes_at(g, e.val)
            for w in es:
                k += 1
                Y, X = (sp.expand(nm.s(w.args[i])) for i in (1, 2))
                s = arith.summation(g, w.args[3], nm)
                if not rep.check(s is not None, "convolution", n + ":sum", "%s: a cell becomes %s, no sum over the kernel" % (w.where, show(w.args[3]))):
                    continue
                for x in s.why:
                    rep.bad("convolution", n + ":all", "%s: %s" % (f, x))
                want = S("k[ky;kx]") * S("a[%s;%s]" % (sp.expand(Y + S("ky") - S("(k.h//2)")), sp.expand(X + S("kx") - S("(k.w//2)"))))
                for a in s.adds:
                    rep.check(s.init == 0 and eq(a, want), "convolution", n, "%s: %s + sum of %s, the definition is the sum of %s" % (w.where, s.init, a, want))
                for c, dim, h in ((Y, "a.h", "(k.h//2)"), (X, "a.w", "(k.w//2)")):
                    i = [z for z in c.free_symbols if z.name.startswith("i<")]
                    if not rep.check(len(i) == 1, "convolution", n + ":cells", "%s: the cells set are at %s" % (w.where, c)):
                        continue
                    lo = sp.expand(c - i[0])
                    cnt = sp.sympify(i[0].name[2:-1].replace("(k.h//2)", "KH").replace("(k.w//2)", "KW").replace("a.h", "AH").replace("a.w", "AW"))
                    cnt = cnt.subs({S("KH"): S("(k.h//2)"), S("KW"): S("(k.w//2)"), S("AH"): S("a.h"), S("AW"): S("a.w")})
                    if n == "convo":
                        rep.check(lo == 0 and equal(cnt, S(dim)), "convolution", n + ":cells", "%s: the cells %s..+%s are set, not all of them" % (w.where, lo, cnt))
                    else:
                        b = sp.expand(lo - S(h))
                        e2 = sp.expand(S(dim) - S(h) - lo - cnt)
                        rep.check(b.is_Integer and 0 <= b <= 1 and e2.is_Integer and 0 <= e2 <= 1, "convolution", n + ":cells", "%s: the cells from %s on, %s of them, are set: not those whose surroundings are inside" % (w.where, lo, cnt))
            complete(rep, "convolution", n, g, es)
        rep.floor("convolution", k, 1, "cells set by " + f)


# ---------------------------------------------------------------- networks
def network(rep):
    f = "Nn::buildNnFromParameters"
    g = rep.graph(f)
    idx, params, nin, act0, n0, n1, diff = (adt.param(g, i) for i in range(1, 8))
    ads = []
    for e in g.events("agg"):
        if e.val is not None and str(e.val.a[0]).endswith("ad::Ad") and g.nodes[e.node.id].facts:
            ads.append(e)
    rep.floor("network", len(ads), 2, "parameters of a network")
    for e in ads:
        fl = dict(zip(e.val.a[2], e.val.a[3:]))
        cur = [v.a[1] for v in q.subs(fl["r"]) if v.op == "idx" and v.a[0] is params]
        if not rep.check(len({c.id for c in cur}) == 1, "network", "parameter", "%s: a weight is %s, no parameter" % (e.where, show(fl["r"]))):
            continue
        c = rank.uncast(cur[0])
        for pr, w in best.leaves(g, fl["d"]):
            k = fnum(w)
            ds = g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or [])
            for d in ds:
                mine = lambda v, p, want: v.op == "bin" and v.a[0] == "Eq" and p == want and any(rank.uncast(y.a[3] if y.op == "agg" and y.a[1] == "Some" else y) is c for y in kids(v)) and any(any(z is diff for z in q.subs(y)) for y in kids(v))
                if k == 0:
                    rep.check(rank.known(g, d, lambda x: best.has(x, lambda v, p: mine(v, p, False) or best.is_none(v, p, lambda o: o is diff))), "network", "unmarked", "%s: a parameter isn't marked though it may be the one asked for [%s]" % (e.where, q.fmt(d)))
                elif k is not None:
                    rep.check(rank.known(g, d, lambda x: best.has(x, lambda v, p: mine(v, p, True))), "network", "marked", "%s: a parameter is marked though it may not be the one asked for [%s]" % (e.where, q.fmt(d)))


    # one parameter after the other
    cur = {rank.uncast(v.a[1]).id: rank.uncast(v.a[1]) for e in ads for v in q.subs(e.val) if v.op == "idx" and v.a[0] is params}
    marks = set()
    for e in ads:
        marks |= {pr for pr, w in best.leaves(g, dict(zip(e.val.a[2], e.val.a[3:]))["d"]) if pr is not None}
    reads = {e.node.id for e in g.events("call") if e.name.endswith("::index") and e.args[0] is params and g.nodes[e.node.id].facts}
    if len(cur) == 1 and list(cur.values())[0] is idx and reads and marks:
        ws = [(v, e) for t, v, e in q.writes(g) if t is idx and g.nodes[e.node.id].facts]
        for v, e in ws:
            rep.check(adt.linear(g, v) == {idx: 1, 1: 1}, "network", "next", "%s: the index of the next parameter is %s" % (e.where, show(v)))
        steps = {e.node.id for _, e in ws}
        stops = {r.id for r in g.root.retnodes}
        for name, ids in (("used", reads), ("compared", marks)):
            for n in sorted(steps) + [None]:
                rep.check(not passes(g, n, ids, steps), "network", "skip", "%s: a parameter may be skipped, none is %s before the index is advanced" % (g.nodes[n].events[0].where if n is not None and g.nodes[n].events else f, name))
            for n in sorted(ids):
                rep.check(not passes(g, n, steps, ids | stops), "network", "again", "%s: the index isn't advanced after it was %s" % (g.nodes[n].events[0].where if g.nodes[n].events else f, name))
    # as many neurons and weights as asked for
    for e in g.events("return"):
        v = e.val
        fl = dict(zip(v.a[2], v.a[3:])) if v.op == "agg" else {}
        for lay, n, m, a in (("neuronsLayer0", n0, nin, lambda w: w is act0), ("neuronsLayer1", n1, n0, lambda w: loops.ival(w) == 1)):
            if not rep.check(lay in fl, "network", lay, "%s: the result is %s" % (f, show(v))):
                continue
            k = 0
            for nr, cnt, where, ls in filled(g, fl[lay]):
                k += 1
                rep.check(cnt is None or cnt is n, "network", lay + ":count", "%s: %s has %s neurons" % (where, lay, show(cnt) if cnt else "?"))
                if nr.op != "agg":
                    continue
                nf = dict(zip(nr.a[2], nr.a[3:]))
                rep.check(a(nf["act"]), "network", lay + ":act", "%s: the activation of %s is %s" % (where, lay, show(nf["act"])))
                for w, c2, wh, l2 in filled(g, nf["weights"], ls):
                    k += 1
                    rep.check(c2 is None or c2 is m, "network", lay + ":weights", "%s: a neuron of %s has %s weights" % (wh, lay, show(c2) if c2 else "?"))
            rep.floor("network", k, 1, "neurons of " + lay)


def passes(g, start, through, stops):
    """a stop can be reached after `start` without one of `through`"""
    st = [0] if start is None else [s for s, _ in g.nodes[start].succ]
    seen = set()
    while st:
        u = st.pop()
        if u in seen or u in through or not g.nodes[u].facts:
            continue
        seen.add(u)
        if u in stops:
            return True
        st += [s for s, _ in g.nodes[u].succ]
    return False


def filled(g, coll, outer=()):
    """[(element, count, where, loops)] of a list filled in loops over ranges"""
    if coll.op == "mapped":
        return [(coll.a[1], span(coll.a[0]), "", ())]
    out = []
    for e in g.events("call"):
        if e.name in q.PUSH and e.args[0] is coll and g.nodes[e.node.id].facts:
            ls = [l for l in loops.loops(g) if e.node.id in l.body and not any(l is x for x in outer)]
            cnt = None
            if len(ls) == 1 and not any(g.nodes[y].facts for u, y, d in ls[0].early()):
                cnt = span(ls[0].nexts[0].args[0]) if ls[0].nexts else None
            out.append((e.args[1], cnt, e.where, ls))
    return out


def span(c):
    if c.op == "agg" and "Range" in str(c.a[0]):
        f = dict(zip(c.a[2], c.a[3:]))
        if loops.ival(f.get("start", c)) == 0 and "Inclusive" not in str(c.a[0]):
            return f["end"]
        return c
    return None


# ---------------------------------------------------------------- classifiers
def classifiers(rep):
    for mod, sims in (("ModVisionB::", sims_tv), ("ModVisionD::", sims_real)):
        sims(rep, mod)
        greatest(rep, mod)
        learn(rep, mod)
    quantise(rep)


def each_prototype(rep, g, mod, n):
    cls = adt.param(g, 2)
    ps = g.field(cls, "prototypes")
    out = []
    for e in g.events("return"):
        v = e.val
        if v.op == "mapped":
            rep.check(loops.whole(v.a[0]) is ps or v.a[0] is ps, "similarity", mod + "each", "%s: the similarities are those of %s" % (g.root.fn.path, show(v.a[0])))
            out.append((None, v.a[1]))
            continue
        es = [x for x in g.events("call") if x.name in q.PUSH and x.args[0] is v and g.nodes[x.node.id].facts]
        for x in es:
            r = rank.each(g, [x], lambda z: z is ps)
            rep.check(bool(r), "similarity", mod + "each", "%s: not one similarity per prototype" % x.where)
            for nd, rs in r:
                for why in rs:
                    rep.bad("similarity", mod + "each", "%s: a prototype may have no similarity: %s" % (x.where, why))
            rep.check(best.loop_order(g, x.node, ps) != "rev", "similarity", mod + "order", "%s: the similarities are in another order than the prototypes" % x.where)
            out.append((x, x.args[1]))
    rep.floor("similarity", len(out), 1, "similarities")
    return out, ps


def channel_pair(g, nm, x, y, stim, ps):
    """x, y: parts of the same channel of the stimulus and of the prototype"""
    def ch(v):
        if v.op == "field" and v.a[1] == "v":
            return v.a[0]
        return None
    a, b = ch(x), ch(y)
    if a is None or b is None:
        return False
    ca, cb = loops.element_of(a), loops.element_of(b)
    if ca is not stim or cb is None or not (is_field(cb, "channels") and loops.element_of(cb.a[0]) is ps):
        return False
    if a.op == "idx" and b.op == "idx":
        return a.a[1] is b.a[1]
    return a.op == b.op == "elem"


def sims_real(rep, mod):
    f = mod + "calc_sims"
    MM = [M + n for n in ("sub", "add", "divScalar", "distPow2")]
    g = rep.graph(f, atoms=MM)
    stim = adt.param(g, 1)
    out, ps = each_prototype(rep, g, mod, f)
    for e, v in out:
        def dist(x):
            if not call(x, M + "distPow2") or not call(x.a[1], M + "sub"):
                return False
            s = x.a[1].a[1:3]
            for p, o in (s, s[::-1]):
                if call(o, M + "divScalar") and channel_pair(g, None, p, o.a[1], stim, ps):
                    k = rank.uncast(o.a[2])
                    return is_field(k, "evidence_count") and loops.element_of(k.a[0]) is ps
            return False

        class N(arith.Names):
            def name(self, x):
                if dist(x):
                    return S("dist")
                return super().name(x)
        nm = N(g, {1: "a", 2: "b"}, ALIAS)
        ok = call(v, "f64::exp")
        why = "the similarity is %s" % show(v)
        if ok:
            phis = [x for x in q.subs(v.a[1]) if x.op == "phi" or x.op == "call" and x.a[0] in ("Iterator::sum", "Iterator::fold")]
            phis = [x for x in phis if not any(x is not y and any(x is z for z in q.subs(y)) for y in phis)]
            ok = len(phis) == 1
            if ok:
                s = arith.summation(g, phis[0], nm)
                ok = s is not None and s.init == 0 and not s.why and all(a == S("dist") for a in s.adds)
                why = "the distance is %s" % (("%s + sum of %s; %s" % (s.init, s.adds, s.why)) if s else "no sum over the channels")
                l = [x for x in loops.loops(g) if phis[0].op == "phi" and x.head == phis[0].a[-1][1]]
                if ok and l and not any(x is stim or is_field(x, "channels") and loops.element_of(x.a[0]) is ps for x in l[0].sources()):
                    ok, why = False, "not all channels are compared"
                nm.extra[phis[0].id] = S("sum")
                got = nm.s(v.a[1])
                if ok:
                    ok = equal(got, -S("sum") / 2)
                    why = "the similarity is exp(%s)" % got
                    if e is not None and phis[0].op == "phi":
                        outer = [l for l in loops.loops(g) if e.node.id in l.body]
                        ok = ok and all(phis[0].a[-1][1] in l.body for l in outer)
        rep.check(ok, "similarity", mod + "formula", "%s: %s" % (f, why))


def sims_tv(rep, mod):
    f = mod + "calc_sims"
    AT = ["TvVec::foldVec", "TvVec::compVec", "Tv::rev", "Tv::calcExp"]
    g = rep.graph(f, atoms=AT)
    stim = adt.param(g, 1)
    out, ps = each_prototype(rep, g, mod, f)
    for e, v in out:
        ok = call(v, "Tv::calcExp")
        why = "the similarity is %s" % show(v)
        if ok:
            p = v.a[1]
            l = [x for x in loops.loops(g) if p.op == "phi" and x.head == p.a[-1][1]]
            if p.op == "phi" and l:
                for pred, w in g.phis[p.id]:
                    if pred not in l[0].body:
                        good = w.op == "agg" and fnum(w.a[4]) == 0
                        ok = ok and good and all(pred in x.body for x in loops.loops(g) if e is not None and e.node.id in x.body)
                        why = "the evidence starts with %s" % show(w)
                        if not ok:
                            break
                        continue
                    good = call(w, "Tv::rev") and any(a is p and call(b, "TvVec::foldVec") and call(b.a[1], "TvVec::compVec") and any(channel_pair(g, None, x, y, stim, ps) for x, y in (b.a[1].a[1:3], b.a[1].a[1:3][::-1])) for a, b in (w.a[1:3], w.a[1:3][::-1]))
                    if not good:
                        ok, why = False, "the evidence of a channel is %s" % show(w)
                        break
                for u, y, d in l[0].early():
                    if g.nodes[y].facts:
                        ok, why = False, "not all channels are compared [%s]" % q.fmt(d)
                if not any(x is stim or is_field(x, "channels") and loops.element_of(x.a[0]) is ps for x in l[0].sources()):
                    ok, why = False, "not all channels are compared"
            elif not (p.op == "call" and p.a[0] == "Iterator::fold"):
                ok = False
        rep.check(ok, "similarity", mod + "formula", "%s: %s" % (f, why))


def greatest(rep, mod):
    f = mod + "classify_max"
    g = rep.graph(f)
    A = adt.param(g, 1)
    half = lambda v: fnum(v) == 0.5
    n = 0
    heads = {l.head for l in loops.loops(g)}
    carried = [v for v in list(g.pool.t.values()) if v.op == "phi" and v.a[-1][1] in heads]
    for e in g.events("return"):
        for v, d in [(v, d) for pr, v in best.leaves(g, e.val, stop=carried) for d in (g.facts_at(e.node) if pr is None else q._fs(g, g.OUT.get(pr) or []))]:
            if v.op == "agg" and v.a[1] == "None":
                n += 1
                low_ = best.has(d, lambda x, p: (lambda c: c and half(c[1]) and c[2] and running(g, c[0], A))(rank.less(x, p)))
                rep.check(low_ or empty(d, A), "greatest", mod + "none", "%s: nothing is found though the greatest similarity isn't known to be below 0.5 [%s]" % (f, q.fmt(d)))
            elif v.op == "agg" and v.a[1] == "Some":
                n += 1
                i, s = g.field(v.a[3], "0"), g.field(v.a[3], "1")
                ok = best.has(d, lambda x, p: (lambda c: c and half(c[0]) and not c[2] and c[1] is s)(rank.less(x, p)))
                rep.check(ok, "greatest", mod + "some", "%s: a prototype is found though its similarity isn't known to be 0.5 or more [%s]" % (f, q.fmt(d)))
                argmax(rep, g, f, mod, i, s, A)
            elif any(x.op == "call" and x.a[0] in ("Iterator::max_by", "Option::filter") for x in q.subs(v)):
                n += 1
            else:
                rep.bad("greatest", mod + "result", "%s: the result is %s" % (f, show(v)))
    rep.floor("greatest", n, 2, "results of " + f)


def empty(d, A):
    for v, p in d:
        if v.op == "bin" and v.a[0] == "Eq" and p and any(loops.len_of(y) is A for y in kids(v)) and any(loops.ival(y) == 0 for y in kids(v)):
            return True
        if v.op == "call" and v.a[0].split("::")[-1] == "is_empty" and v.a[1] is A and p:
            return True
        c = rank.less(v, p)
        if c and loops.len_of(c[0]) is A and (loops.ival(c[1]) == 1 and c[2] or loops.ival(c[1]) == 0 and not c[2]):
            return True
    return False


def running(g, r, A):
    vs = [w for _, w in best.leaves(g, r)]
    return any(loops.element_of(w) is A for w in vs) and all(loops.element_of(w) is A or fnum(w) is not None and fnum(w) <= 0 for w in vs)


def argmax(rep, g, f, mod, i, s, A):
    sv = best.leaves(g, s)
    rep.check(running(g, s, A), "greatest", mod + "value", "%s: the similarity returned is %s" % (f, [show(w) for _, w in sv]))
    l = None
    ups = set()
    for pr, w in sv:
        if loops.element_of(w) is not A:
            continue
        ups.add(pr)
        ls = [x for x in loops.loops(g) if pr in x.body]
        if not ls:
            continue
        l = ls[0]
        isrun = lambda r: best.root(r) is r and r.op == "phi" and running(g, r, A)
        for d in q._fs(g, g.OUT.get(pr) or []):
            rep.check(best.greater(g, d, w, isrun) or rank.known(g, d, lambda x: best.has(x, lambda v, p: (lambda c: c and c[1] is w and isrun(c[0]))(rank.less(v, p)))), "greatest", mod + "greater", "%s: a similarity is taken which isn't known to be greater [%s]" % (f, q.fmt(d)))
        exc = lambda d: best.has(d, lambda v, p: (lambda c: c and c[0] is w and isrun(c[1]))(rank.less(v, p)))
        for u, y, ds in rank.avoid(g, l.head, {pr}, {l.head}, l.body):
            for d in ds:
                if not l.exhausted(d):
                    rep.check(rank.known(g, d, exc), "greatest", mod + "skip", "%s: a greater similarity may be passed over [%s]" % (f, q.fmt(d)))
        for u, y, d in l.early():
            if g.nodes[y].facts:
                rep.bad("greatest", mod + "early", "%s: the search ends early [%s]" % (f, q.fmt(d)))
        if any(f for _, f in l.filtered()):
            rep.bad("greatest", mod + "all", "%s: not all similarities are considered" % f)
    if l is None:
        return
    for pr, x in best.leaves(g, i, stop=[l.index[0]] if l.index else ()):
        if loops.ival(x) is not None and pr not in l.body:
            rep.check(loops.ival(x) == 0, "greatest", mod + "index", "%s: the index starts with %s" % (f, show(x)))
            continue
        ok = x.op == "count" or l.index is not None and x is l.index[0] and list(l.index[1]) == [0] or x.op == "elem" and "Range" in str(x.a[0])
        rep.check(ok, "greatest", mod + "index", "%s: the index returned is %s" % (f, show(x)))
        if pr is not None and pr in l.body:
            rep.check(best_together(g, ups, pr, l), "greatest", mod + "together", "%s: index and similarity are not kept together" % f)


def learn(rep, mod):
    f = mod + "classify"
    SIMS, MAX = mod + "calc_sims", mod + "classify_max"
    UPD = {"ModVisionB::": "TvVec::revVec", "ModVisionD::": M + "add"}[mod]
    g = rep.graph(f, atoms=[SIMS, MAX, UPD])
    cls, stim, now, add = (adt.param(g, i) for i in range(1, 5))
    ps = g.field(cls, "prototypes")
    isres = lambda v: call(v, MAX) and call(v.a[1], SIMS) and v.a[1].a[1] is stim and v.a[1].a[2] is cls
    res = [v for v in list(g.pool.t.values()) if isres(v)]
    if not rep.check(bool(res), "learn", mod + "classify", "%s: the stimulus isn't compared with the prototypes" % f):
        return
    isidx = lambda v: v.op == "field" and v.a[1] == "0" and payload(v.a[0]) is not None and isres(payload(v.a[0]))
    mine = lambda v: v.op == "idx" and v.a[0] is ps and isidx(v.a[1])
    found = lambda d, want: best.has(d, lambda v, p: (best.is_some if want else best.is_none)(v, p, isres))
    adding = lambda d, want: best.has(d, lambda v, p: v is add and p == want)
    places = {"channels": [], "last_use_time": [], "evidence_count": []}
    for t, v, e in q.writes(g):
        if not g.nodes[e.node.id].facts or best_param(t) is not cls:
            continue
        for d in g.facts_at(e.node):
            rep.check(adding(d, True), "learn", mod + "unasked", "%s: %s is changed though nothing is to be learned [%s]" % (e.where, show(t), q.fmt(d)))
            rep.check(found(d, True), "learn", mod + "which", "%s: %s is changed though no prototype was found [%s]" % (e.where, show(t), q.fmt(d)))
        if is_field(t, "v"):
            c = t.a[0]
            ch = loops.element_of(c)
            ok = ch is not None and is_field(ch, "channels") and mine(ch.a[0]) and call(v, UPD) and any(a is t and is_field(b, "v") and loops.element_of(b.a[0]) is stim and same_index(c, b.a[0]) for a, b in (v.a[1:3], v.a[1:3][::-1]))
            rep.check(ok, "learn", mod + "channel", "%s: %s becomes %s" % (e.where, show(t), show(v)))
            places["channels"].append((e, ch))
        elif is_field(t, "last_use_time"):
            rep.check(mine(t.a[0]) and v is now, "learn", mod + "time", "%s: %s becomes %s" % (e.where, show(t), show(v)))
            places["last_use_time"].append((e, None))
        elif is_field(t, "evidence_count"):
            m = adt.linear(g, v)
            rep.check(mine(t.a[0]) and m == {t: 1, 1: 1}, "learn", mod + "count", "%s: %s becomes %s" % (e.where, show(t), show(v)))
            places["evidence_count"].append((e, None))
        else:
            rep.bad("learn", mod + "other", "%s: %s is changed" % (e.where, show(t)))
    stops = {r.id for r in g.root.retnodes}
    need = ["channels", "last_use_time"] + (["evidence_count"] if mod == "ModVisionD::" else [])
    for n in need:
        if not rep.check(bool(places[n]), "learn", mod + n, "%s: the %s of the prototype found isn't updated" % (f, n)):
            continue
        if n == "channels":
            for e, ch in places[n]:
                r = rank.each(g, [e], lambda z: z is ch or z is stim)
                rep.check(bool(r), "learn", mod + "channels", "%s: not all channels are updated" % e.where)
                for nd, rs in r:
                    for why in rs:
                        rep.bad("learn", mod + "channels", "%s: a channel may not be updated: %s" % (e.where, why))
            ls = [l for l in loops.loops(g) if any(e.node.id in l.body for e, _ in places[n])]
            tgt = {l.head for l in ls}
        else:
            tgt = {e.node.id for e, _ in places[n]}
            for e, _ in places[n]:
                rep.check(not any(e.node.id in l.body for l in loops.loops(g)), "learn", mod + n + ":once", "%s: %s is updated more than once" % (e.where, n))
        for u, x, ds in rank.avoid(g, 0, tgt, stops, panics=False):
            for d in ds:
                rep.check(rank.known(g, d, lambda z: adding(z, False) or found(z, False)), "learn", mod + n + ":path", "%s: the %s of the prototype found isn't updated [%s]" % (f, n, q.fmt(d)))
    # new prototypes
    pu = [e for e in g.events("call") if e.args and e.args[0] is ps and g.nodes[e.node.id].facts and e.name.startswith(("Vec::", "slice::")) and e.name not in adt.READERS]
    good = []
    for e in pu:
        if not rep.check(e.name in q.PUSH, "learn", mod + "prototypes", "%s: the prototypes are changed by %s" % (e.where, e.name)):
            continue
        good.append(e)
        v = e.args[1]
        fl = dict(zip(v.a[2], v.a[3:])) if v.op == "agg" else {}
        copy = fl.get("channels")
        ok = copy is not None and (copy is stim or copy.op == "mapped" and copy.a[0] is stim and loops.element_of(copy.a[1]) is stim) and fl.get("last_use_time") is now and ("evidence_count" not in fl or loops.ival(fl["evidence_count"]) == 1)
        rep.check(ok, "learn", mod + "new", "%s: the new prototype is %s" % (e.where, show(v)))
        for d in g.facts_at(e.node):
            rep.check(adding(d, True) and found(d, False), "learn", mod + "new-when", "%s: a prototype is added [%s]" % (e.where, q.fmt(d)))
    if rep.check(bool(good), "learn", mod + "new", "%s: no prototype is added" % f):
        for u, x, ds in rank.avoid(g, 0, {e.node.id for e in good}, stops, panics=False):
            for d in ds:
                rep.check(rank.known(g, d, lambda z: adding(z, False) or found(z, True)), "learn", mod + "new-path", "%s: no prototype is added for an unknown stimulus [%s]" % (f, q.fmt(d)))
    # result
    n = 0
    for e in g.events("return"):
        for v, d in q.alts(g, e.node, e.val):
            n += 1
            if v.op == "agg" and v.a[1] == "None":
                rep.check(found(d, False) and adding(d, False), "learn", mod + "result-none", "%s: nothing is returned [%s]" % (f, q.fmt(d)))
            elif v.op == "agg" and v.a[1] == "Some" and isidx(v.a[3]):
                rep.check(found(d, True), "learn", mod + "result", "%s: %s is returned [%s]" % (f, show(v), q.fmt(d)))
            elif v.op == "agg" and v.a[1] == "Some":
                m = adt.linear(g, v.a[3])
                ks = [k for k in m if isinstance(k, V)]
                ok = len(ks) == 1 and loops.len_of(ks[0]) is ps and m[ks[0]] == 1
                off = m.get(1, 0)
                lens = [x for x in g.events("call") if ok and x.val is ks[0] and g.nodes[x.node.id].facts]
                before = [x for x in lens if good and all(adt.skips(g, x.node.id, None, good[0].node.id, stops) or not after(g, good[0].node.id, x.node.id) for _ in (0,)) and not after(g, good[0].node.id, x.node.id)]
                aft = [x for x in lens if good and after(g, good[0].node.id, x.node.id)]
                ok = ok and (off == -1 and bool(aft) and not before or off == 0 and bool(before) and not aft)
                rep.check(ok, "learn", mod + "result-new", "%s: the index returned for a new prototype is %s" % (f, show(v.a[3])))
            else:
                rep.bad("learn", mod + "result", "%s: the result is %s" % (f, show(v)))
    rep.floor("learn", n, 3, "results of " + f)


def after(g, a, b):
    seen, st = {a}, [a]
    while st:
        u = st.pop()
        for s, _ in g.nodes[u].succ:
            if s == b:
                return True
            if s not in seen and g.nodes[s].facts:
                seen.add(s)
                st.append(s)
    return False


def same_index(a, b):
    if a.op == "idx" and b.op == "idx":
        return a.a[1] is b.a[1]
    return a.op == b.op == "elem"


def best_param(t):
    while t.op in ("field", "vfield", "idx", "elem", "cidx") and isinstance(t.a[0], V):
        t = t.a[0]
    return t


def quantise(rep):
    B = "ModVisionB::"
    f = B + "conv_to_tv_vec"
    g = rep.graph(f, atoms=[B + "quantisize"])
    x, n, c = (adt.param(g, i) for i in (1, 2, 3))
    k = 0
    for e in g.events("return"):
        v = e.val
        if not rep.check(v.op == "call" and v.a[0].endswith("from_elem") and rank.uncast(v.a[2]) is n and tv(v.a[1]) == (0, c), "quantise", "rest", "%s: the vector is %s" % (f, show(v))):
            continue
        for t, w, ev in q.writes(g):
            fl = is_field(t, "f") and t.a[0].op == "idx"
            if fl:
                t = t.a[0]
            if t.op == "idx" and t.a[0] is v and g.nodes[ev.node.id].facts:
                k += 1
                i = rank.uncast(t.a[1])
                rep.check(call(i, B + "quantisize") and i.a[1] is x and i.a[2] is n and (fnum(w) == 1 if fl else tv(w) == (1, c)) and adt.always(g, ev.node), "quantise", "one", "%s: %s becomes %s" % (ev.where, show(t), show(w)))
    rep.check(k == 1, "quantise", "one", "%s: %d elements of the vector are marked" % (f, k))
    g = rep.graph(B + "quantisize")
    nm = arith.Names(g, {1: "a", 2: "n"})
    for e in g.events("return"):
        rep.check(equal(nm.s(e.val), S("a") * (S("n") - 1)), "quantise", "step", "quantisize is %s" % nm.s(e.val))
    f = B + "conv_img_to_tv_vec"
    g = rep.graph(f, atoms=MA + [B + "conv_to_tv_vec"])
    nm = arith.Names(g, {1: "a"}, ALIAS)
    m = adt.param(g, 1)
    k = 0
    for e in g.events("return"):
        for k_, z, ev in q.contents(g, e.val):
            k += 1
            y = z
            while y.op in ("elem", "mapped"):
                y = y.a[0]
            ok = call(y, B + "conv_to_tv_vec") and y.a[2] is adt.param(g, 2) and y.a[3] is adt.param(g, 3) and nm.place(y.a[1]) == "a[y;x]"
            rep.check(ok, "quantise", "image", "%s: the vector of the image gets %s" % (ev.where, show(z)))
            complete(rep, "quantise", "image", g, [ev])
    rep.floor("quantise", k, 1, "parts of the vector of an image")


def tv(v):
    if v.op == "agg":
        f = dict(zip(v.a[2], v.a[3:]))
        if "f" in f and "c" in f:
            return fnum(f["f"]), f["c"]
    return None


def check(rep):
    ad(rep)
    vectors(rep)
    maps(rep)
    conv(rep)
    network(rep)
    classifiers(rep)
