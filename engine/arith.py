"""Sums over collections and element-wise results as algebraic expressions over named inputs and canonical loop variables.

A value of the graph becomes an expression: an argument's field is the symbol "a.f", its element the symbol "a[index]", where the index is an expression too. The
variable of a loop over lo..hi is lo + i<hi-lo>, so loops which run over the same elements in other terms come out the same."""
import sympy as sp
import adt
import best
import loops
import q
import rank
from sym import FUN, to_sym, NotNumeric, equal
from vg import V, show, kids

READ, WRITE = "Map2d::readAt", "Map2d::writeAt"


class Names:
    def __init__(self, g, letters, alias=None):
        self.g, self.letters, self.alias, self.extra = g, letters, alias or {}, {}

    def place(self, v):
        """name of a part of an argument"""
        if v.op == "param":
            return self.letters.get(v.a[0])
        if v.op in ("field", "vfield"):
            b = self.place(v.a[0])
            return b and "%s.%s" % (b, v.a[-1] if v.op == "field" else v.a[1] + v.a[2])
        if v.op == "elem":
            b = self.place(loops.whole(v.a[0]) or v.a[0])
            if b is None:
                return None
            return "%s[y;x]" % b[:-4] if b.endswith(".arr") else "%s[%s]" % (b, self.var("len(%s)" % b))
        if v.op == "idx" and v.a[1].op != "agg":
            b = self.place(v.a[0])
            if b is None:
                return None
            if b.endswith(".arr"):
                yx = self.grid(v.a[1], b[:-4] + ".w")
                return yx and "%s[%s;%s]" % ((b[:-4],) + yx)
            return "%s[%s]" % (b, self.s(v.a[1]))
        if v.op == "cidx" and not v.a[2]:
            b = self.place(v.a[0])
            return b and "%s[%s]" % (b, v.a[1])
        if v.op == "call" and v.a[0] == READ:
            b = self.place(v.a[1])
            return b and "%s[%s;%s]" % (b, self.s(v.a[2]), self.s(v.a[3]))
        return None

    def var(self, n):
        n = "i<%s>" % n
        return self.alias.get(n, n)

    def grid(self, v, w):
        """(y, x) of an index y*w+x"""
        e = sp.expand(self.s(v))
        W = sp.Symbol(w)
        y = e.coeff(W, 1)
        x = sp.expand(e - y * W)
        return (str(y), str(x)) if W not in x.free_symbols and W not in y.free_symbols else None

    def name(self, v):
        if v.id in self.extra:
            return self.extra[v.id]
        if v.op in ("const", "cast"):
            return None
        c = loops.len_of(v)
        if c is not None:
            b = self.place(c)
            return sp.Symbol("len(%s)" % b) if b else sp.Symbol("v%d" % v.id)
        if v.op == "elem" and v.a[0].op == "call" and v.a[0].a[0] == "RangeInclusive::new":
            lo, hi = self.s(v.a[0].a[1]), self.s(v.a[0].a[2])
            return lo + sp.Symbol(self.var(str(sp.expand(hi - lo) + 1)))
        if v.op == "elem" and v.a[0].op == "agg" and "Range" in str(v.a[0].a[0]):
            f = dict(zip(v.a[0].a[2], v.a[0].a[3:]))
            if "start" in f and "end" in f:
                lo, hi = self.s(f["start"]), self.s(f["end"])
                n = sp.expand(hi - lo) + (1 if "Inclusive" in str(v.a[0].a[0]) else 0)
                x = self.var(str(n))
                return lo + sp.Symbol(x)
        if v.op == "bin" and v.a[0].startswith("Div") and v.a[2].op == "const" and isinstance(v.a[2].a[1], int):
            n, k = self.s(v.a[1]), v.a[2].a[1]
            sg = 1
            if n.could_extract_minus_sign():
                n, sg = -n, -1
            return sg * sp.Symbol("(%s//%d)" % (n, k))
        if v.op in ("bin", "un") or v.op == "call" and (v.a[0] in FUN or v.a[0].split("::")[-1] in ("powf", "powi", "mul_add", "recip", "max", "min")):
            return None
        p = self.place(v)
        return sp.Symbol(p if p else "v%d" % v.id)

    def s(self, v):
        e = to_sym(v, self.name)
        return e.replace(lambda x: isinstance(x, sp.exp), lambda x: x)


def proj(g, v, path):
    for f in path:
        v = g.field(v, f)
    return v


def path_of(v):
    p = []
    while v.op == "field":
        p.append(v.a[1])
        v = v.a[0]
    return v, p[::-1]


class Sum:
    def __init__(self, init, adds, why):
        self.init, self.adds, self.why = init, adds, why


def added(nm, x, acc):
    e = sp.expand(x)
    if e.coeff(acc, 1) == 1 and sp.degree(e, acc) == 1:
        return sp.expand(e - acc)
    return None


def summation(g, v, nm, depth=4):
    """v as init + sum of an addend over loops, or None"""
    core, path = path_of(v)
    if core.op == "call" and core.a[0] == "Iterator::sum":
        m = core.a[1]
        why = []
        while m.op == "call" and m.a[0] in ("Iterator::copied", "Iterator::cloned"):
            m = m.a[1]
        if m.op != "mapped":
            return None
        if any(x.op == "filtered" or x.op == "call" and x.a[0].split("::")[-1] in ("skip", "take", "step_by", "filter", "skip_while", "take_while") for x in q.subs(m.a[0])):
            why.append("only some of the elements are added up")
        return Sum(sp.Integer(0), [nm.s(m.a[1])], why)
    if core.op == "call" and core.a[0] == "Iterator::fold":
        ks = [x for x in core.a[1:] if isinstance(x, V)]
        us = [x for x in q.subs(core) if x.op == "unk" and x.a[0] == "acc"]
        if len(ks) < 3 or not us:
            return None
        body = [k for k in ks[1:] if any(x is us[0] for x in q.subs(k))]
        ini = [k for k in ks[1:] if not any(x is us[0] for x in q.subs(k))]
        if not body or not ini:
            return None
        acc = sp.Symbol("acc")
        nm.extra[proj(g, us[0], path).id] = acc
        a = added(nm, nm.s(proj(g, body[0], path)), acc)
        return None if a is None else Sum(nm.s(proj(g, ini[0], path)), [a], [])
    if core.op != "phi" or depth == 0:
        return None
    ls = [l for l in loops.loops(g) if l.head == core.a[-1][1]]
    if not ls:
        return None
    l = ls[0]
    acc = sp.Symbol("acc%d" % core.id)
    nm.extra[v.id] = acc
    init, adds, why = [], [], []
    for pred, w in g.phis[core.id]:
        w = proj(g, w, path)
        if pred not in l.body:
            init.append(nm.s(w) if path_of(w)[0].op != "phi" or w.id in nm.extra else sp.Symbol("v%d" % w.id))
            continue
        for p2, x in best.leaves(g, w, stop=[y for y in (best.root(z) for z in q.subs(w)) if y.op == "phi" and any(k.head == y.a[-1][1] for k in loops.loops(g))]):
            if x is v:
                why.append("on some paths nothing is added")
                continue
            c2 = path_of(x)[0]
            if c2.op == "phi" and any(k.head == c2.a[-1][1] for k in loops.loops(g)):
                s = summation(g, x, nm, depth - 1)
                if s is None or s.init != acc:
                    return None
                adds += s.adds
                why += s.why
                continue
            a = added(nm, nm.s(x), acc)
            if a is None:
                return None
            adds.append(a)
    for u, y, d in l.early():
        if g.nodes[y].facts:
            why.append("the sum ends early [%s]" % q.fmt(d))
    if any(f for _, f in l.filtered()):
        why.append("only some of the elements are added up")
    if not init or not adds or any(x != init[0] for x in init):
        return None
    return Sum(init[0], adds, why)


def elementwise(g, v, nm):
    """[(index expressions, value)], problems: what the elements of the resulting collection or map are"""
    why = []
    if v.op == "mapped":
        if any(x.op == "filtered" or x.op == "call" and x.a[0].split("::")[-1] in ("skip", "take", "step_by", "filter", "rev") for x in q.subs(v.a[0])):
            why.append("only some elements, or another order")
        return [(None, v.a[1])], why
    out = []
    if v.op == "agg" and str(v.a[0]).endswith("Map2d") and v.a[3].op == "mapped":
        return elementwise(g, v.a[3], nm)
    if v.op == "agg" and str(v.a[0]).endswith("Map2d") and v.a[3].op == "new":
        v = v.a[3]
    if v.op == "call" and v.a[0] in ("Map2d::clone", "Clone::clone"):
        v = v.a[1]
    nodes = []
    for e in g.events("call"):
        if not g.nodes[e.node.id].facts:
            continue
        if e.name == WRITE and e.args[0] is v:
            out.append(((nm.s(e.args[1]), nm.s(e.args[2])), e.args[3]))
            nodes.append(e)
        elif e.name in q.PUSH and e.args[0] is v and v.op == "new":
            out.append((None, e.args[1]))
            nodes.append(e)
        elif e.name in q.EXTEND and e.args[0] is v and v.op == "new" and e.args[1].op == "mapped":
            out += [(None, e.args[1].a[1])]
    for t, w, e in q.writes(g):
        if not g.nodes[e.node.id].facts:
            continue
        if t.op == "idx" and t.a[0] is v:
            out.append((nm.s(t.a[1]), w))
            nodes.append(e)
        elif t.op == "elem" and t.a[0] is v:
            out.append((None, w))
            nodes.append(e)
        elif t.op == "idx" and t.a[0].op == "field" and t.a[0].a[1] == "arr" and t.a[0].a[0] is v:
            W = g.field(v, "w")
            if W.op == "field" and v.op == "call" and v.a[0] == "Map2d::makeMap2d":
                nm.extra[W.id] = sp.Symbol("W")
                yx = sp.expand(nm.s(t.a[1]))
                w2 = sp.expand(nm.s(v.a[2]))
                y = yx.coeff(w2, 1) if w2.is_Symbol else None
                out.append((((y, sp.expand(yx - y * w2)) if y is not None else yx), w))
            else:
                out.append((nm.s(t.a[1]), w))
            nodes.append(e)
    for e in nodes:
        ls = [l for l in loops.loops(g) if e.node.id in l.body]
        for l in ls:
            for u, y, d in l.early():
                if g.nodes[y].facts:
                    why.append("%s: the loop ends early" % e.where)
            if any(f for _, f in l.filtered()):
                why.append("%s: only some elements" % e.where)
        inner = [l for l in ls if not any(k is not l and k.body < l.body for k in ls)]
        for l in inner:
            for u, y, ds in rank.avoid(g, l.head, {n.node.id for n in nodes}, {l.head}, l.body):
                for d in ds:
                    if not l.exhausted(d):
                        why.append("%s: an element may be left out [%s]" % (e.where, q.fmt(d)))
        if not ls:
            why.append("%s: a single element is set" % e.where)
    return out, why
