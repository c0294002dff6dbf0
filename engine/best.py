"""Selecting the best of candidates: a variable that is replaced only by something better, by everything better."""
import loops
import q
import rank
from vg import V, show, kids


def root(v):
    """the join below a path of fields / payloads, or v itself"""
    while v.op in ("field", "vfield") and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def chain(g, p):
    """the joins through which the variable p gets its values"""
    seen, st = {}, [p]
    while st:
        x = st.pop()
        if x.id in seen or x.op != "phi":
            continue
        seen[x.id] = x
        for _, w in g.phis.get(x.id, []):
            if w.op == "phi":
                st.append(w)
    return list(seen.values())


def somes(g, p):
    """[(edge source, payload)] of the settings of an Option variable to Some, and whether it can be None"""
    out, none = [], False
    for pr, w in rank.settings(g, p):
        if w.op == "agg" and w.a[1] == "None":
            none = True
        elif w.op == "agg" and w.a[1] == "Some":
            out.append((pr, w.a[3]))
        else:
            out.append((pr, g.vfield(w, "Some", "0")))
    return out, none


def greater(g, d, key, isrun):
    """the facts say that key is greater than the best so far (isrun), or that there is none yet"""
    def pred(x):
        for v, p in x:
            c = rank.less(v, p)
            if c and c[1] is key and isrun(c[0]):
                return True
            if v.op == "isv" and v.a[1] == "Some" and not p and isrun(v.a[0]):
                return True
            if v.op == "isv" and v.a[1] == "None" and p and isrun(v.a[0]):
                return True
        return False
    return rank.known(g, d, pred)


def not_greater(g, d, key, isrun):
    def pred(x):
        for v, p in x:
            c = rank.less(v, p)
            if c and c[0] is key and isrun(c[1]):
                return True
        return False
    return rank.known(g, d, pred)


def has(d, f):
    return any(f(v, p) for v, p in d)


def says(name):
    """fact predicate: field `name` is true / false"""
    def f(v, p, want=True):
        return v.op == "field" and v.a[-1] == name and p == want
    return f


def is_none(v, p, f):
    """the fact says that an Option accepted by f is None"""
    return v.op == "isv" and f(v.a[0]) and (v.a[1] == "Some" and not p or v.a[1] == "None" and p)


def is_some(v, p, f):
    return v.op == "isv" and f(v.a[0]) and (v.a[1] == "Some" and p or v.a[1] == "None" and not p)


def leaves(g, v, stop=(), seen=None, pr=None, depth=8):
    """[(edge source or None, value)]: the values v can have, through joins below its path of fields / payloads; the payload of None is left out"""
    seen = seen if seen is not None else set()
    if v.op == "optmap":
        return leaves(g, v.a[1], stop, seen, pr, depth)
    if v.op == "call" and v.a[0] == "Option::map_or" and len(v.a) > 3:
        return leaves(g, v.a[2], stop, seen, pr, depth) + leaves(g, v.a[3], stop, seen, pr, depth)
    r = root(v)
    if any(r is x for x in stop):
        return [(pr, v)]
    if r.op != "phi" or r.id not in g.phis or depth == 0:
        if r.op == "agg" and r.a[1] == "None" and v is not r:
            return []
        return [(pr, v)]
    if (v.id,) in seen:
        return []
    seen.add((v.id,))
    out = []
    for p, w in g.phis[r.id]:
        if w.op == "agg" and w.a[1] == "None" and v is not r:
            continue
        out += leaves(g, q.subst(g, v, r, w), stop, seen, p, depth)
    return out


def loop_order(g, node, base):
    """"rev" / "fwd" / None (unknown): the direction in which the innermost loop around node visits base"""
    l = rank.in_loop(g, node)
    if l is None:
        return None
    for n in l.nexts:
        c = n.args[0]
        if any(x is base for x in q.subs(c)):
            return "rev" if sum(1 for x in q.subs(c) if x.op == "call" and x.a[0] == "Iterator::rev") % 2 else "fwd"
    return None
