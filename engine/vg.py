"""Value-flow graph with guards.

For one entry function this builds an interprocedural control-flow graph (crate-local callees and
closures spliced in, except a vocabulary of "atoms" that the rules talk about), numbers the values
flowing through it (hash-consed expression graph; reference/box/arc/lock/clone are transparent) and
computes, by a forward dataflow over a bounded set of disjuncts, which branch conditions are known
to hold at each program point.  Rules query the events (calls, writes, aggregates, returns)
together with their operand values and the conditions known there.  Nothing is executed and no
solver is involved: joins merge values into phi nodes and intersect/union finite fact sets.
"""
import os
import re
import time
import sys
from mir import callee

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ names
_GEN = re.compile(r"::<[^<>]*>")


def strip_generics(p):
    prev = None
    while prev != p:
        prev = p
        p = _GEN.sub("", p)
    return p


def _split_top(p):
    """split a path at top-level '::'"""
    out, depth, cur, i = [], 0, "", 0
    while i < len(p):
        ch = p[i]
        if ch == "<" or ch == "{" or ch == "(" or ch == "[":
            depth += 1
        elif ch == ">" and (i == 0 or p[i - 1] != "-"):
            depth -= 1
        elif ch == "}" or ch == ")" or ch == "]":
            depth -= 1
        if depth == 0 and p.startswith("::", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += ch
        i += 1
    out.append(cur)
    return out


_cache = {}


def short(p):
    """Iterator::next, Vec::push, str::len, ... : the last type/trait segment and the method"""
    if p in _cache:
        return _cache[p]
    parts = [x for x in _split_top(p)]
    m = parts[-1]
    prev = None
    for x in reversed(parts[:-1]):
        if x.startswith("<") and not x.startswith("<impl") and " as " not in x:
            continue    # generics only ( ::<T, A> )
        prev = x
        break
    if prev is None:
        r = m
    else:
        if prev.startswith("<impl "):
            inner = prev[6:-1]
            if " for " in inner:
                tr = inner.split(" for ")[0]
                prev = tr
            else:
                prev = inner
                if prev.startswith("["):
                    prev = "slice"
        elif prev.startswith("<") and " as " in prev:
            # <X as Trait>
            depth = 0
            cut = None
            for i, ch in enumerate(prev):
                if ch == "<":
                    depth += 1
                elif ch == ">" and prev[i - 1] != "-":
                    depth -= 1
                elif depth == 1 and prev.startswith(" as ", i):
                    cut = i
            tr = prev[cut + 4:-1] if cut else prev
            prev = tr
        # cut generics and take last segment
        k = prev.find("<")
        if k > 0:
            prev = prev[:k]
        prev = prev.split("::")[-1]
        r = prev + "::" + m
    _cache[p] = r
    return r


# ------------------------------------------------------------------ values
class V:
    __slots__ = ("op", "a", "id", "sites", "size", "__weakref__")

    def __repr__(self):
        return show(self)


class Pool:
    def __init__(self):
        self.t = {}
        self.n = 0

    def mk(self, op, *a):
        k = (op,) + tuple(x.id if isinstance(x, V) else ("#", x) for x in a)
        v = self.t.get(k)
        if v is None:
            v = V()
            v.op = op
            v.a = a
            self.n += 1
            v.id = self.n
            s = frozenset()
            size = 1
            for x in a:
                if isinstance(x, V):
                    s |= x.sites
                    size += x.size
            v.sites = s
            v.size = min(size, 10 ** 9)
            self.t[k] = v
        return v

    def mks(self, op, site, *a):
        """site-identified value"""
        v = self.mk(op, *(a + (("@", site),)))
        if site not in v.sites:
            v.sites = v.sites | {site}
        return v


def kids(v):
    return [x for x in v.a if isinstance(x, V)]


def subvalues(v, seen=None):
    """all sub-values, without looking through phis"""
    if seen is None:
        seen = {}
    st = [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(kids(x))
    return seen


def contains(v, w):
    return w.id in subvalues(v)


def show(v, depth=6):
    if not isinstance(v, V):
        return str(v)
    if depth == 0:
        return "…"
    o, a = v.op, v.a
    d = depth - 1
    if o == "param":
        return a[1] or "arg%d" % a[0]
    if o == "const":
        return repr(a[1]) if a[0] in ("str",) else str(a[1])
    if o == "fnc":
        return "fn:" + a[0]
    if o == "field":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "vfield":
        return "%s.%s.%s" % (show(a[0], d), a[1], a[2])
    if o == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "cidx":
        return "%s[%s%s]" % (show(a[0], d), "-" if a[2] else "", a[1])
    if o == "elem":
        return "elem(%s)" % show(a[0], d)
    if o == "agg":
        return "%s{%s}" % (a[0] + ("::" + a[1] if a[1] else ""), ", ".join(show(x, d) for x in a[3:]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:] if isinstance(x, V)))
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "un":
        return "%s(%s)" % (a[0], show(a[1], d))
    if o == "cast":
        return "(%s as %s)" % (show(a[1], d), a[0])
    if o == "phi":
        return "phi@%s" % (a[-1][1],)
    if o == "isv":
        return "%s is %s" % (show(a[0], d), a[1])
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


# ------------------------------------------------------------------ call models
TRANSPARENT = {
    "Deref::deref", "DerefMut::deref_mut", "Clone::clone", "Box::new", "Arc::new", "Rc::new",
    "RwLock::new", "Mutex::new", "RefCell::new", "Cell::new", "RwLock::read", "RwLock::write", "RwLock::upgradable_read",
    "RefCell::borrow", "RefCell::borrow_mut", "slice::iter", "slice::iter_mut", "slice::to_vec",
    "IntoIterator::into_iter", "Iterator::cloned", "Iterator::copied", "Iterator::collect",
    "Option::as_ref", "Option::as_mut", "Option::cloned", "Option::copied", "Option::as_deref", "Vec::as_slice", "Vec::into_boxed_slice", "str::to_string",
    "ToString::to_string", "ToOwned::to_owned", "String::as_str", "String::from", "From::from", "Into::into",
    "Iterator::by_ref", "AsRef::as_ref", "Borrow::borrow", "hint::must_use", "Iterator::peekable",
    "boxed::box_assume_init_into_vec_unsafe", "String::to_string", "Vec::from", "slice::into_vec", "Result::as_ref",
    "Cow::into_owned", "identity", "convert::identity", "Arc::clone", "Rc::clone", "BorrowMut::borrow_mut", "Vec::iter", "Iterator::fuse",
    "String::as_bytes", "str::as_bytes", "Arc::as_ref", "Option::iter", "String::into_boxed_str", "Rc::as_ref", "Vec::as_mut_slice",
    "IntoFuture::into_future", "Pin::new_unchecked", "Box::pin", "Vec::into_iter",
    "alloc::exchange_malloc", "MaybeUninit::assume_init", "Option::to_owned", "slice::to_owned", "Instant::clone",
}
# mutators of a container: facts about the receiver die here
MUTATORS = {
    "Vec::push", "Vec::insert", "Vec::remove", "Vec::swap_remove", "Vec::clear", "Vec::truncate", "Vec::pop",
    "Vec::append", "Vec::drain", "Vec::retain", "Vec::extend", "Extend::extend", "HashMap::insert", "HashMap::remove",
    "HashMap::clear", "Vec::resize", "slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::reverse", "Vec::dedup", "Vec::extend_from_slice",
    "slice::sort_unstable_by", "slice::swap", "Vec::split_off", "String::push", "String::push_str", "HashMap::retain", "VecDeque::push_back",
    "VecDeque::pop_front", "VecDeque::push_front", "VecDeque::pop_back", "HashMap::entry", "HashMap::get_mut",
}
# combinators that call the closure once per element of arg 0: name -> kind
ITER_CLOSURE = {
    "Iterator::map": "map", "Iterator::filter": "filter", "Iterator::any": "any", "Iterator::all": "all",
    "Iterator::find": "find", "Iterator::for_each": "for_each", "Iterator::position": "position",
    "Vec::retain": "retain", "Iterator::filter_map": "filter_map", "Iterator::flat_map": "flat_map",
    "Iterator::take_while": "filter", "Iterator::skip_while": "other", "Iterator::inspect": "inspect",
    "Iterator::find_map": "find_map", "Iterator::min_by": "cmp", "Iterator::max_by": "cmp", "slice::sort_by": "cmp",
    "slice::sort_unstable_by": "cmp", "slice::sort_by_key": "key", "Iterator::max_by_key": "key", "Iterator::min_by_key": "key",
    "slice::sort_by_cached_key": "key", "slice::sort_unstable_by_key": "key",
    "Iterator::fold": "fold", "Iterator::try_fold": "fold", "Iterator::rposition": "position", "Iterator::partition": "partition", "HashMap::retain": "retain2",
    "Iterator::try_for_each": "for_each", "Iterator::map_while": "filter_map", "Iterator::rfind": "find", "Vec::retain_mut": "retain",
}
OPT_CLOSURE = {
    "Option::map", "Option::and_then", "Option::unwrap_or_else", "Option::map_or", "Option::filter", "Option::is_some_and",
    "Result::map", "Result::map_err", "Result::and_then", "Result::unwrap_or_else", "Option::ok_or_else", "Option::or_else", "bool::then",
    "Option::map_or_else", "Option::is_none_or", "Result::is_ok_and",
}
# the option (or condition) for which the closure is called
OPT_WHEN = {"Option::map": True, "Option::and_then": True, "Option::map_or": True, "Option::filter": True, "Option::is_some_and": True,
            "Option::is_none_or": True, "Option::unwrap_or_else": False, "Option::ok_or_else": False, "Option::or_else": False, "bool::then": True}
BINOPS = {"Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "Div::div": "Div", "Rem::rem": "Rem",
          "PartialOrd::lt": "Lt", "PartialOrd::gt": "Gt", "PartialOrd::le": "Le", "PartialOrd::ge": "Ge"}
ASSIGNOPS = {"AddAssign::add_assign": "Add", "SubAssign::sub_assign": "Sub", "MulAssign::mul_assign": "Mul",
             "DivAssign::div_assign": "Div"}
PURE_EXT = {
    "Vec::len", "slice::len", "Vec::is_empty", "slice::is_empty", "str::len", "String::len", "HashMap::get", "HashMap::contains_key",
    "HashMap::len", "slice::contains", "str::is_empty", "String::is_empty", "f64::exp", "f64::sqrt", "f64::powf", "f64::abs", "f64::sin", "f64::cos", "f64::max", "f64::min",
    "f32::max", "Ord::min", "Ord::max", "i64::abs", "Iterator::rev", "Iterator::enumerate", "Iterator::zip", "Iterator::chain", "Iterator::sum",
    "Iterator::min", "Iterator::max", "Iterator::count", "Iterator::skip", "Iterator::take", "str::starts_with", "str::ends_with", "str::contains",
    "str::chars", "str::trim_end", "str::trim", "str::split", "str::split_whitespace", "str::parse", "str::replace", "slice::get", "slice::first", "slice::last", "HashMap::iter",
    "PartialOrd::partial_cmp", "Option::unwrap_or", "Arc::ptr_eq", "slice::split_at", "str::char_indices", "HashMap::values", "HashMap::keys", "f64::powi",
    "f64::ln", "f64::tanh", "f64::clamp", "slice::windows", "str::get", "slice::concat", "Option::ok_or", "Result::ok", "str::strip_prefix", "slice::iter().rev", "HashMap::index",
    "f32::min", "f64::mul_add", "f64::recip", "f64::signum", "f64::neg", "Option::xor", "Option::or", "Option::and", "usize::saturating_sub", "slice::starts_with", "slice::ends_with",
    "Iterator::step_by", "Iterator::eq", "Ord::cmp", "Ord::clamp", "str::bytes", "slice::split_first", "slice::split_last", "Ordering::reverse", "Ordering::is_lt", "Ordering::is_gt",
    "u64::pow", "u64::saturating_add", "u64::saturating_sub", "char::is_alphanumeric", "Iterator::last", "f64::is_nan", "f64::total_cmp",
}


# ------------------------------------------------------------------ CFG
class Inst:
    __slots__ = ("gclos", "id", "fn", "parent", "callnode", "depth", "kind", "stack", "cap", "meta", "retnodes", "cont")

    def __init__(self, id, fn, parent, callnode, kind, stack):
        self.id = id
        self.fn = fn
        self.parent = parent
        self.callnode = callnode
        self.kind = kind
        self.stack = stack
        self.retnodes = []
        self.meta = None
        self.cont = None


class Node:
    __slots__ = ("id", "inst", "bb", "kind", "succ", "pred", "events", "facts", "info", "env_out", "line")

    def __init__(self, id, inst, bb, kind):
        self.id = id
        self.inst = inst
        self.bb = bb
        self.kind = kind      # 'bb', 'ret' (after inlined call), 'loop' (closure loop head), 'post'
        self.succ = []        # list of (nodeid, edge label)
        self.pred = []
        self.events = []
        self.facts = None
        self.info = None
        self.line = 0


class Event:
    __slots__ = ("kind", "name", "args", "val", "node", "line", "inst", "idx", "extra", "argn")

    def __init__(self, kind, name, args, val, node, line, inst, idx, extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.val = val
        self.node = node
        self.line = line
        self.inst = inst
        self.idx = idx
        self.extra = extra

    @property
    def where(self):
        return "%s:%s (%s)" % (self.inst.fn.file, self.line, self.inst.fn.path)

    def __repr__(self):
        return "<%s %s(%s) @%s>" % (self.kind, self.name, ", ".join(show(x) for x in self.args or []), self.where)


MAXDISJ = 24


class TooLarge(RuntimeError):
    pass


class Graph:
    def __init__(self, crate, entry, atoms=(), inline=None, maxdepth=12, pure=(), spawn_inline=False,
                 maxnodes=60000, maxdisj=MAXDISJ, args=None, cellopaque=()):
        t0 = time.time()
        self.crate = crate
        self.entry = entry
        self.atoms = set(atoms)
        self.inline_pred = inline
        self.maxdepth = maxdepth
        self.pure = set(pure) | set(atoms)
        self.pool = Pool()
        self.spawn_inline = spawn_inline
        self.nodes = []
        self.insts = []
        self.phis = {}
        self.optsrc = {}
        self.maxnodes = maxnodes
        self.maxdisj = maxdisj
        self.args = args
        self.warnings = []
        fn = crate.fns[entry] if isinstance(entry, str) else entry
        self.root = self._inst(fn, None, None, "root", (fn.path,))
        self._order()
        self._solve_values()
        self._solve_facts()
        if "VG_TIMES" in os.environ:
            print("graph", fn.path, len(self.nodes), round(time.time() - t0, 1))

    # -------------------------------------------------------- construction
    def _node(self, inst, bb, kind):
        if len(self.nodes) > self.maxnodes:
            raise TooLarge("inlined graph too large for %s" % self.entry)
        n = Node(len(self.nodes), inst, bb, kind)
        self.nodes.append(n)
        return n

    def _edge(self, a, b, label=None):
        a.succ.append((b.id, label))
        b.pred.append((a.id, label))

    def _should_inline(self, path, inst, fnref):
        if path not in self.crate.fns:
            return False
        if path in self.atoms:
            return False
        if path in inst.stack:
            return False
        if len(inst.stack) > self.maxdepth:
            return False
        if short(path) in TRANSPARENT or short(path) in ("PartialEq::eq", "PartialEq::ne", "Hash::hash"):
            return False
        if self.inline_pred is not None and not self.inline_pred(path, inst):
            return False
        return True

    def resolve(self, t):
        """static callee of a call terminator: devirtualised when the trait has one implementation"""
        fnr = t["fn"].get("fn")
        if fnr is None:
            return None
        p = fnr.get("res") or fnr["path"]
        if p not in self.crate.fns and fnr.get("trait") in getattr(self.crate, "local_traits", ()):
            imps = self.crate.impls_of(fnr["trait"], fnr["path"].split("::")[-1])
            if len(imps) == 1:
                return imps[0]
        return p

    def _generic_closure(self, inst, fnr):
        """the closure standing for a type parameter of the enclosing inlined function, if there is exactly one"""
        if len(inst.gclos) == 1 and any(a.startswith("impl ") or a.isidentifier() and a[:1].isupper() for a in fnr.get("args", ()) if isinstance(a, str)):
            return inst.gclos[0]
        return None

    def _inst(self, fn, parent, callnode, kind, stack, gclos=()):
        inst = Inst(len(self.insts), fn, parent, callnode, kind, stack)
        inst.gclos = gclos
        self.insts.append(inst)
        bbs = {}
        for i, b in enumerate(fn.blocks):
            if b["c"]:
                continue
            n = self._node(inst, i, "bb")
            n.line = b["t"].get("line", 0)
            bbs[i] = n
        inst.meta = bbs
        for i, b in enumerate(fn.blocks):
            if b["c"]:
                continue
            n = bbs[i]
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert", "yield"):
                if t.get("to") is not None:
                    self._edge(n, bbs[t["to"]], ("assert",) if k == "assert" else None)
            elif k == "switch":
                vals = []
                for v, to in t["ts"]:
                    self._edge(n, bbs[to], ("sw", v))
                    vals.append(v)
                if fn.blocks[t["else"]]["t"]["k"] != "unreachable":
                    self._edge(n, bbs[t["else"]], ("else", tuple(vals)))
            elif k == "return":
                inst.retnodes.append(n)
            elif k == "call":
                if t["to"] is None:
                    # diverging call
                    pass
                else:
                    self._build_call(inst, n, t, bbs[t["to"]])
        return inst

    def _build_call(self, inst, n, t, after):
        path = self.resolve(t)
        fnr = t["fn"].get("fn") or {}
        sh = short(path) if path else None
        closures = [c for c in fnr.get("closures", []) if c in self.crate.fns]
        gc = self._generic_closure(inst, fnr) if not closures else None
        if gc:
            if sh in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
                path = gc
            else:
                closures = [gc]
        # closures among argument locals
        if path and path in self.crate.fns and self._should_inline(path, inst, fnr):
            cal = self.crate.fns[path]
            sub = self._inst(cal, inst, n, "call", inst.stack + (path,), tuple(closures) if path != gc else ())
            ret = self._node(inst, n.bb, "ret")
            ret.info = ("ret", sub, t)
            ret.line = n.line
            n.info = ("callinl", sub, t)
            self._edge(n, sub.meta[0])
            for r in sub.retnodes:
                self._edge(r, ret)
            self._edge(ret, after)
            return
        clos = [c for c in closures if c not in inst.stack and c not in self.atoms]
        if clos and (sh in ITER_CLOSURE or sh in OPT_CLOSURE or (sh == "functions::spawn" and self.spawn_inline)):
            c = clos[-1]
            cal = self.crate.fns[c]
            if sh == "Option::map_or_else" and len(clos) == 2 and clos[0] != clos[1] and len(inst.stack) <= self.maxdepth:
                # both closures: the default for None, the mapping for Some
                head = self._node(inst, n.bb, "chead")
                post = self._node(inst, n.bb, "cpost")
                head.line = post.line = n.line
                both = []
                for x, cont in zip(clos, ("Option::unwrap_or_else", "Option::map")):
                    sub = self._inst(self.crate.fns[x], inst, n, "closure", inst.stack + (x,), inst.gclos)
                    sub.cont = cont
                    both.append(sub)
                n.info = ("cpre", both[1], t, both[0])
                head.info = ("copt", both[1], t)
                post.info = ("cpost", both[1], t, sh, both[0])
                self._edge(n, head)
                for sub, some in zip(both, (False, True)):
                    self._edge(head, sub.meta[0], ("opt", some))
                    for r in sub.retnodes:
                        self._edge(r, post)
                self._edge(post, after)
                return
            if len(inst.stack) <= self.maxdepth:
                head = self._node(inst, n.bb, "chead")
                head.line = n.line
                post = self._node(inst, n.bb, "cpost")
                post.line = n.line
                sub = self._inst(cal, inst, n, "closure", inst.stack + (c,), inst.gclos)
                sub.cont = sh
                n.info = ("cpre", sub, t)
                pol = OPT_WHEN.get(sh)
                head.info = ("chead", sub, t) if pol is None else ("copt", sub, t)
                post.info = ("cpost", sub, t, sh)
                # (the exit edge first: the body then precedes the exit in reverse post-order, so that the
                # closure's result is known when the exit is evaluated)
                self._edge(n, head)
                self._edge(head, post, None if pol is None else ("opt", not pol))
                self._edge(head, sub.meta[0], None if pol is None else ("opt", pol))
                loop = sh in ITER_CLOSURE
                for r in sub.retnodes:
                    self._edge(r, head if loop else post)
                self._edge(post, after)
                return
        n.info = ("call", path, t)
        self._edge(n, after)

    def _order(self):
        # RPO from entry
        seen = set()
        order = []
        root = self.root.meta[0].id
        st = [(root, iter([s for s, _ in self.nodes[root].succ]))]
        seen.add(root)
        onstack = {root}
        self.back = set()
        while st:
            u, it = st[-1]
            adv = False
            for v in it:
                if v in onstack:
                    self.back.add((u, v))
                if v not in seen:
                    seen.add(v)
                    onstack.add(v)
                    st.append((v, iter([s for s, _ in self.nodes[v].succ])))
                    adv = True
                    break
            if not adv:
                order.append(u)
                onstack.discard(u)
                st.pop()
        order.reverse()
        self.order = order
        self.reach = seen
        for n in self.nodes:
            n.pred = [(p, l) for p, l in n.pred if p in seen]
        # natural loops
        self.loops = {}
        for (u, h) in self.back:
            body = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                for p, _ in self.nodes[x].pred:
                    st.append(p)
        # syntactically assigned locals per loop
        self.assigned = {}
        for h, body in self.loops.items():
            s = set()
            for x in body:
                nd = self.nodes[x]
                if nd.kind == "bb":
                    b = nd.inst.fn.blocks[nd.bb]
                    for st_ in b["s"]:
                        if st_["k"] == "=":
                            s.add((nd.inst.id, st_["pl"]["l"]))
                    if b["t"]["k"] in ("call", "yield"):
                        s.add((nd.inst.id, b["t"]["dst"]["l"]))
            self.assigned[h] = s

    # -------------------------------------------------------- value numbering
    def _solve_values(self):
        for _ in range(6):
            self._solve_values1()
            if not self._prune():
                return
            self._order()
            self.__dict__.pop("extra_phi", None)
            self.__dict__.pop("trivial", None)

    def _prune(self):
        """remove the branch edges whose condition is a constant that excludes them"""
        dead = set()
        for u in self.order:
            n = self.nodes[u]
            if n.info is None or n.info[0] != "switch":
                continue
            v = n.info[1]
            if v.op != "const" and not (v.op == "discr" and v.a[0].op == "agg"):
                continue
            for s, label in n.succ:
                if self.edge_facts(n, label) is None:
                    dead.add((u, s, label))
        if not dead:
            return False
        for u, s, label in dead:
            n = self.nodes[u]
            n.succ = [(x, l) for x, l in n.succ if not (x == s and l == label)]
            m = self.nodes[s]
            m.pred = [(x, l) for x, l in m.pred if not (x == u and l == label)]
        return True

    def _solve_values1(self):
        for p in range(40):
            self.phis = {}
            self.phi_type = {}
            changed = self._pass()
            if not changed:
                return
        self.warnings.append("value numbering did not stabilise")

    def _pass(self):
        mk = self.pool.mk
        self.env_out = {}
        root = self.root.meta[0].id
        late = []
        if not hasattr(self, "extra_phi"):
            self.extra_phi = {}
            self.trivial = {}
        changed = False
        for u in self.order:
            n = self.nodes[u]
            n.events = []
            if u == root:
                env = {}
                for i in range(1, self.root.fn.argc + 1):
                    if self.args and i - 1 < len(self.args) and self.args[i - 1] is not None:
                        env[(self.root.id, i)] = self.args[i - 1](self) if callable(self.args[i - 1]) else self.args[i - 1]
                    else:
                        env[(self.root.id, i)] = mk("param", i, self.root.fn.locals[i].get("n"))
            else:
                preds = [p for p, _ in n.pred]
                done = [p for p in preds if (p, u) not in self.back and p in self.env_out]
                if not done:
                    # unreachable in order (irreducible); skip
                    self.env_out[u] = {}
                    continue
                hasback = any((p, u) in self.back for p in preds)
                if len(done) == 1:
                    env = dict(self.env_out[done[0]])
                else:
                    env = {}
                    first = self.env_out[done[0]]
                    others = [self.env_out[p] for p in done[1:]]
                    for k, v in first.items():
                        ok = True
                        same = True
                        for o in others:
                            w = o.get(k)
                            if w is None:
                                ok = False
                                break
                            if w is not v:
                                same = False
                        if not ok:
                            continue
                        if same:
                            env[k] = v
                        else:
                            ph = self.pool.mks("phi", u, k)
                            self.phis[ph.id] = [(p, self.env_out[p][k]) for p in done]
                            env[k] = ph
                if hasback:
                    want = self.assigned.get(u, set()) | self.extra_phi.get(u, set())
                    for k in list(env):
                        if k in want and (u, k) not in self.trivial:
                            init = env[k]
                            ph = self.pool.mks("phi", u, k)
                            if init is ph:
                                ins = self.phis.get(ph.id)
                            else:
                                self.phis[ph.id] = [(p, self.env_out[p][k]) for p in done if k in self.env_out[p]]
                                env[k] = ph
                    late.append((u, dict(env)))
            self._exec(n, env)
            self.env_out[u] = env
        # close the loops
        for u, henv in late:
            n = self.nodes[u]
            for p, _ in n.pred:
                if (p, u) in self.back and p in self.env_out:
                    po = self.env_out[p]
                    for k, hv in henv.items():
                        w = po.get(k)
                        if w is None:
                            continue
                        if hv.op == "phi" and hv.a == (k, ("@", u)):
                            self.phis[hv.id].append((p, w))
                        elif w is not hv and (u, k) not in self.trivial:
                            self.extra_phi.setdefault(u, set()).add(k)
                            changed = True
        if not changed:
            # trivial phi elimination at loop heads
            for u, henv in late:
                for k, hv in henv.items():
                    if hv.op == "phi" and hv.a == (k, ("@", u)):
                        ins = {w.id for _, w in self.phis[hv.id] if w is not hv}
                        if len(ins) == 1 and (u, k) not in self.trivial:
                            self.trivial[(u, k)] = True
                            changed = True
        return changed

    # ---- constants / operands / places
    def const(self, inst, o):
        mk = self.pool.mk
        if "fn" in o:
            return mk("fnc", o["fn"].get("res") or o["fn"]["path"])
        if "promoted" in o:
            pf = inst.fn.promoted[o["promoted"]]
            return self.eval_promoted(inst, pf)
        if "str" in o:
            return mk("const", "str", o["str"])
        if "val" in o:
            return mk("const", o["t"], o["val"])
        if "static" in o:
            return mk("static", o["static"])
        if "bytes" in o:
            return mk("const", "bytes", tuple(o["bytes"]))
        if "ind" in o:
            return mk("const", "ind:" + o["t"], tuple(o["ind"]))
        if "closure" in o:
            return mk("closure", o["closure"])
        return mk("const", o["t"], "()")

    def eval_promoted(self, inst, pf):
        env = {}
        save = inst.fn
        fake = Inst(-1, pf, None, None, "promoted", ())
        for i, b in enumerate(pf.blocks):
            for s in b["s"]:
                if s["k"] == "=":
                    env[(-1, s["pl"]["l"])] = self.rvalue(fake, env, s["rv"], None) if not s["pl"]["p"] else env.get((-1, s["pl"]["l"]))
            t = b["t"]
            if t["k"] == "call":
                a = [self.operand(fake, env, x) for x in t["args"]]
                env[(-1, t["dst"]["l"])] = self.pool.mk("call", short(callee(t) or "?"), *a)
        return env.get((-1, 0)) or self.pool.mk("const", "promoted", "?")

    def operand(self, inst, env, o):
        k = o["k"]
        if k == "const":
            return self.const(inst, o)
        if k in ("copy", "move"):
            return self.read(inst, env, o["pl"])
        return self.pool.mk("const", "rt", "rt")

    def field(self, b, name):
        mk = self.pool.mk
        if b.op == "agg":
            names = b.a[2]
            if name in names:
                return b.a[3 + names.index(name)]
        if b.op == "upd":
            base, proj, val = b.a
            if proj[0] == name:
                if len(proj) == 1:
                    return val
                return mk("upd", self.field(base, name), proj[1:], val)
            return self.field(base, name)
        if b.op == "closure" and len(b.a) > 1:
            names = b.a[1]
            if name in names:
                return b.a[2 + names.index(name)]
        if b.op == "bin" and b.a[0].endswith("WithOverflow"):
            if name == "0":
                return self.binop(b.a[0][:-len("WithOverflow")], b.a[1], b.a[2])
        if b.op == "phi":
            # field of a phi whose inputs are all aggregates: keep symbolic, rules expand it
            pass
        return mk("field", b, name)

    def vfield(self, b, variant, name):
        mk = self.pool.mk
        if b.op == "agg" and b.a[1] == variant:
            names = b.a[2]
            if name in names:
                return b.a[3 + names.index(name)]
        if b.op == "next" and variant == "Some":
            return self.elem(b.a[0], b.a[1][1])
        if b.op == "found" and variant == "Some":
            return b.a[2]
        if b.op == "branch":
            # ControlFlow from Try::branch
            if variant == "Continue":
                return self.vfield(b.a[0], "Some", "0") if b.a[1] == "Option" else self.okval(b.a[0])
            return mk("vfield", b.a[0], "Residual", "0")
        if b.op == "optmap" and variant == "Some":
            return b.a[1]
        if b.op == "call" and b.a[0] in ("slice::first", "slice::last") and variant == "Some":
            return self.cindex(b.a[1], 0 if b.a[0] == "slice::first" else 1, b.a[0] == "slice::last")
        if b.op == "call" and b.a[0] in ("slice::split_first", "slice::split_last") and variant == "Some":
            fe = b.a[0] == "slice::split_last"
            return mk("agg", "tuple", None, ("0", "1"), self.cindex(b.a[1], 1 if fe else 0, fe), self.subslice(b.a[1], 0 if fe else 1, 1 if fe else 0))
        if b.op == "call" and b.a[0] in ("slice::get", "HashMap::get", "HashMap::get_mut", "slice::get_mut") and variant == "Some":
            return mk("idx", b.a[1], b.a[2])
        return mk("vfield", b, variant, name)

    def okval(self, x):
        if x.op == "agg" and x.a[1] in ("Ok", "Some"):
            return x.a[3]
        return self.pool.mk("okval", x)

    def elem(self, coll, site):
        """the element yielded by iterating `coll` at `site`"""
        mk = self.pool.mk
        pool = self.pool
        if coll.op == "mapped":
            return coll.a[1]
        if coll.op == "filtered":
            return coll.a[1]
        if coll.op == "call" and coll.a[0] == "Iterator::enumerate":
            inner = self.elem(coll.a[1], site)
            return mk("agg", "tuple", None, ("0", "1"), pool.mks("count", site), inner)
        if coll.op == "call" and coll.a[0] == "Iterator::zip":
            return mk("agg", "tuple", None, ("0", "1"), self.elem(coll.a[1], site), self.elem(coll.a[2], site))
        if coll.op == "call" and coll.a[0] in ("Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::step_by"):
            e = self.elem(coll.a[1], site)
            return e
        return pool.mks("elem", site, coll)

    def mutref_read(self, env, r):
        inst, local, proj = r.a
        v = env.get((inst, local))
        if v is None:
            return self.pool.mk("unk", "dead%d_%d" % (inst, local))
        for p in proj:
            v = self._proj(v, p)
        return v

    def _proj(self, v, p):
        if isinstance(p, tuple):
            if p[0] == "v":
                return self.vfield(v, p[1], p[2])
            return self.pool.mk("idx", v, self.pool.mk("unk", "ix"))
        return self.field(v, p)

    def read(self, inst, env, pl):
        v = env.get((inst.id, pl["l"]))
        if v is None:
            v = self.pool.mk("undef", inst.id, pl["l"])
        variant = None
        mk = self.pool.mk
        for e in pl["p"]:
            if v.op == "mutref":
                v = self.mutref_read(env, v)
                # mutref to mutref
                n = 0
                while v.op == "mutref" and e != "*" and n < 8:
                    v = self.mutref_read(env, v)
                    n += 1
            if e == "*":
                continue
            if e == "?":
                v = mk("unk", "proj")
            elif "f" in e:
                if variant is not None:
                    v = self.vfield(v, variant, e["f"])
                    variant = None
                else:
                    v = self.field(v, e["f"])
            elif "v" in e:
                variant = e["v"]
            elif "x" in e:
                i = env.get((inst.id, e["x"])) or mk("undef", inst.id, e["x"])
                v = self.index(v, i)
            elif "ci" in e:
                v = self.cindex(v, e["ci"], e["fe"])
            elif "ss" in e:
                v = self.subslice(v, *e["ss"]) if e["fe"] else mk("subslice", v, tuple(e["ss"]), e["fe"])
        return v

    def index(self, v, i):
        if i.op == "const":
            try:
                return self.cindex(v, int(i.a[1]), False)
            except (ValueError, TypeError):
                pass
        if i.op == "vfield" and i.a[1] == "Some" and i.a[0].op == "position" and i.a[0].a[0] is v:
            return i.a[0].a[2]
        return self.pool.mk("idx", v, i)

    def cindex(self, v, k, fe):
        if v.op == "agg" and v.a[0] == "array" and not fe and k < len(v.a) - 3:
            return v.a[3 + k]
        if v.op == "subslice" and v.a[2]:
            return self.pool.mk("cidx", v.a[0], k + v.a[1][1 if fe else 0], bool(fe))
        return self.pool.mk("cidx", v, k, bool(fe))

    def subslice(self, v, a, b):
        """v without the first a and the last b elements"""
        if v.op == "subslice" and v.a[2]:
            return self.pool.mk("subslice", v.a[0], (v.a[1][0] + a, v.a[1][1] + b), True)
        return self.pool.mk("subslice", v, (a, b), True)

    def place_ref(self, inst, env, pl):
        """value of &mut place"""
        base = env.get((inst.id, pl["l"]))
        proj = []
        cur = ("local", inst.id, pl["l"])
        variant = None
        for i, e in enumerate(pl["p"]):
            if e == "*":
                if cur[0] == "local":
                    # deref of what the local place holds
                    v = self.mutref_read(env, self.pool.mk("mutref", cur[1], cur[2], tuple(proj))) if base is not None else None
                    if v is not None and v.op == "mutref":
                        cur = ("local", v.a[0], v.a[1])
                        proj = list(v.a[2])
                        base = env.get((v.a[0], v.a[1]))
                        continue
                # heap (box, arc, shared ref, param): identity value of the whole place
                return self.read(inst, env, pl)
            elif e == "?":
                return self.read(inst, env, pl)
            elif "f" in e:
                if variant is not None:
                    proj.append(("v", variant, e["f"]))
                    variant = None
                else:
                    proj.append(e["f"])
            elif "v" in e:
                variant = e["v"]
            else:
                return self.read(inst, env, pl)
        if base is None:
            return self.pool.mk("mutref", cur[1], cur[2], tuple(proj))
        return self.pool.mk("mutref", cur[1], cur[2], tuple(proj))

    def write(self, n, inst, env, pl, val, line):
        if not pl["p"]:
            env[(inst.id, pl["l"])] = val
            return
        ty = inst.fn.locals[pl["l"]]["t"]
        if ty.startswith("alloc::boxed::Box<core::mem::maybe_uninit"):
            env[(inst.id, pl["l"])] = val
            return
        r = self.place_ref(inst, env, pl)
        if r.op == "mutref" and self._storage_path(inst, env, pl):
            tgt = self._target(env, r)
            self._store(env, r, val)
            # stores through a reference to the caller's/own local are also visible as writes
            n.events.append(Event("lwrite", None, [r, val], val, n, line, inst, len(n.events), extra=tgt))
            return
        n.events.append(Event("write", None, [r, val], val, n, line, inst, len(n.events), extra=pl))

    def _target(self, env, r):
        """the place written through r, expressed from the object the local held originally"""
        i, l, proj = r.a
        v = env.get((i, l))
        if v is None:
            return None
        k = 0
        while v.op in ("upd", "mutref") and k < 50:
            k += 1
            v = v.a[0] if v.op == "upd" else (env.get((v.a[0], v.a[1])) or self.pool.mk("undef", v.a[0], v.a[1]))
        for p in proj:
            v = self._proj(v, p)
        return v

    def _storage_path(self, inst, env, pl):
        return True

    def _store(self, env, r, val):
        i, l, proj = r.a
        if not proj:
            env[(i, l)] = val
            return
        old = env.get((i, l)) or self.pool.mk("undef", i, l)
        p2 = tuple("%s.%s" % (p[1], p[2]) if isinstance(p, tuple) else p for p in proj)
        if old.op == "agg" and len(p2) == 1 and p2[0] in old.a[2]:
            a = list(old.a)
            a[3 + old.a[2].index(p2[0])] = val
            env[(i, l)] = self.pool.mk("agg", *a)
            return
        env[(i, l)] = self.pool.mk("upd", old, p2, val)

    COMM = {"Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor"}

    def binop(self, op, a, b):
        mk = self.pool.mk
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            op, a, b = "Le", b, a
        if op in self.COMM and a.id > b.id:
            a, b = b, a
        if a.op == "const" and b.op == "const" and op in ("Add", "Sub", "Mul") and a.a[0] == b.a[0] and isinstance(a.a[1], int) and isinstance(b.a[1], int):
            r = {"Add": a.a[1] + b.a[1], "Sub": a.a[1] - b.a[1], "Mul": a.a[1] * b.a[1]}[op]
            return mk("const", a.a[0], r)
        if a.op == "const" and b.op == "const" and op in ("Eq", "Ne", "Lt", "Le") and type(a.a[1]) is type(b.a[1]) and isinstance(a.a[1], (int, bool)):
            x, y = a.a[1], b.a[1]
            return mk("const", "bool", {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y}[op])
        if op == "Lt" and b.op == "const" and b.a[1] == 0 and isinstance(b.a[1], int) and b.a[0] in ("usize", "u8", "u16", "u32", "u64", "u128"):
            return mk("const", "bool", False)
        if op in ("Eq", "Ne") and a.op == "agg" and b.op == "agg" and a.a[1] and b.a[1] and len(a.a) == 3 and len(b.a) == 3 and a.a[0] == b.a[0]:
            return mk("const", "bool", (a.a[1] == b.a[1]) == (op == "Eq"))
        return mk("bin", op, a, b)

    def rvalue(self, inst, env, r, n):
        mk = self.pool.mk
        k = r["k"]
        if k == "use":
            return self.operand(inst, env, r["o"])
        if k == "ref":
            if r["m"] == "mut":
                return self.place_ref(inst, env, r["pl"])
            v = self.read(inst, env, r["pl"])
            return v
        if k == "raw":
            return self.read(inst, env, r["pl"])
        if k == "cast":
            v = self.operand(inst, env, r["o"])
            ck = r["ck"]
            if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Transmute", "Subtype"):
                return v
            if v.op == "const" and isinstance(v.a[1], (int,)) and ck == "IntToFloat":
                return mk("const", r["t"], repr(float(v.a[1])))
            return mk("cast", r["t"], v)
        if k == "bin":
            return self.binop(r["op"], self.operand(inst, env, r["a"]), self.operand(inst, env, r["b"]))
        if k == "un":
            v = self.operand(inst, env, r["o"])
            if r["op"] == "Not" and v.op == "un" and v.a[0] == "Not":
                return v.a[1]
            if r["op"] == "Neg" and v.op == "const":
                try:
                    x = v.a[1]
                    return mk("const", v.a[0], repr(-float(x)) if isinstance(x, str) else -x)
                except (ValueError, TypeError):
                    pass
            if r["op"] == "PtrMetadata":
                return mk("len", v)
            return mk("un", r["op"], v)
        if k == "discr":
            v = self.read(inst, env, r["pl"])
            if v.op == "mutref":
                v = self.mutref_read(env, v)
            vs = tuple((int(a), b) for a, b in r["vs"])
            return mk("discr", v, vs)
        if k == "agg":
            fs = [self.operand(inst, env, o) for o in r["fs"]]
            ak = r["ak"]
            if ak == "adt":
                names = tuple(r["fn"])
                if len(names) != len(fs):
                    names = tuple(str(i) for i in range(len(fs)))
                return mk("agg", r["adt"], r["v"] if r["enum"] else None, names, *fs)
            if ak == "tuple":
                return mk("agg", "tuple", None, tuple(str(i) for i in range(len(fs))), *fs)
            if ak == "array":
                return mk("agg", "array", None, tuple(str(i) for i in range(len(fs))), *fs)
            if ak == "closure":
                return mk("closure", r["def"], tuple(r["fn"]), *fs)
            return mk("agg", ak, None, tuple(str(i) for i in range(len(fs))), *fs)
        if k == "repeat":
            return mk("repeat", self.operand(inst, env, r["o"]), r["n"])
        return mk("unk", "rv:" + k)

    # ---- executing a node
    def _exec(self, n, env):
        inst = n.inst
        mk = self.pool.mk
        if n.kind == "bb":
            b = inst.fn.blocks[n.bb]
            for s in b["s"]:
                if s["k"] == "=":
                    val = self.rvalue(inst, env, s["rv"], n)
                    if s["rv"]["k"] == "agg":
                        n.events.append(Event("agg", s["rv"].get("adt") or s["rv"]["ak"], [val], val, n, s["line"], inst, len(n.events), extra=s["rv"].get("v")))
                    elif s["rv"]["k"] == "bin":
                        n.events.append(Event("bin", s["rv"]["op"], [val], val, n, s["line"], inst, len(n.events)))
                    self.write(n, inst, env, s["pl"], val, s["line"])
            t = b["t"]
            k = t["k"]
            if k == "call":
                info = n.info
                if info is None:     # diverging
                    args = [self.operand(inst, env, a) for a in t["args"]]
                    p = self.resolve(t)
                    n.events.append(Event("diverge", p, args, None, n, t["line"], inst, len(n.events)))
                elif info[0] == "callinl":
                    sub = info[1]
                    args = [self.operand(inst, env, a) for a in t["args"]]
                    self._bind(sub, args, env, t)
                    n.events.append(Event("enter", sub.fn.path, args, None, n, t["line"], inst, len(n.events)))
                elif info[0] == "cpre":
                    sub = info[1]
                    args = [self.operand(inst, env, a) for a in t["args"]]
                    self._bind_closure(n, sub, args, env, t)
                    if len(info) > 3:
                        env[(info[3].id, 1)] = args[1]
                    self.optsrc[sub.id] = env[(inst_key(sub), "coll")]
                else:
                    self._call(n, inst, env, t, info[1])
            elif k == "switch":
                v = self.operand(inst, env, t["o"])
                n.info = ("switch", v, (t["o"].get("pl") or t["o"]).get("t"))
            elif k == "assert":
                v = self.operand(inst, env, t["o"])
                n.info = ("assert", v, t["exp"], t["msg"], [self.operand(inst, env, x) for x in t["ops"]])
            elif k == "return":
                n.info = ("return", env.get((inst.id, 0)))
                if inst is self.root:
                    n.events.append(Event("return", None, [], env.get((inst.id, 0)), n, t["line"], inst, len(n.events)))
            elif k == "drop":
                v = self.read(inst, env, t["pl"])
                n.events.append(Event("drop", None, [v], v, n, t["line"], inst, len(n.events)))
            elif k == "yield":
                self.write(n, inst, env, t["dst"], self.pool.mks("unk", n.id, "yield"), t["line"])
        elif n.kind == "ret":
            _, sub, t = n.info[:3]
            val = env.get((sub.id, 0)) or mk("const", "()", "()")
            for k in [k for k in env if k[0] == sub.id]:
                del env[k]
            self._fix_dangling(env, val)
            self.write(n, inst, env, t["dst"], val, t["line"])
            n.events.append(Event("leave", sub.fn.path, [], val, n, t["line"], inst, len(n.events)))
        elif n.kind == "cpost":
            _, sub, t, sh = n.info[:4]
            self._closure_result(n, inst, sub, t, sh, env, n.info[4] if len(n.info) > 4 else None)

    def _fix_dangling(self, env, val):
        pass

    def _bind(self, sub, args, env, t):
        f = sub.fn
        if f.kind == "Closure" and len(args) == 2 and f.argc != 2 or (f.kind == "Closure" and len(args) == 2 and args[1].op == "agg" and args[1].a[0] == "tuple" and f.argc - 1 == len(args[1].a) - 3):
            # Fn::call(closure, (args,))
            tup = args[1]
            env[(sub.id, 1)] = args[0]
            for i in range(2, f.argc + 1):
                env[(sub.id, i)] = self.field(tup, str(i - 2))
            return
        for i in range(1, f.argc + 1):
            env[(sub.id, i)] = args[i - 1] if i - 1 < len(args) else self.pool.mk("unk", "arg")

    def _bind_closure(self, n, sub, args, env, t):
        sh = sub.cont
        f = sub.fn
        kind = ITER_CLOSURE.get(sh)
        coll = args[0]
        if coll.op == "mutref":
            coll = self.mutref_read(env, coll)
        clo = args[-1]
        base = 1
        if f.kind == "Closure":
            env[(sub.id, 1)] = clo
            base = 2
        pool = self.pool
        if kind is not None:
            site = n.id
            if kind == "cmp":
                env[(sub.id, base)] = pool.mks("elem", (site, "A"), coll)
                env[(sub.id, base + 1)] = pool.mks("elem", (site, "B"), coll)
            elif kind == "fold":
                env[(sub.id, base)] = pool.mks("unk", site, "acc")
                env[(sub.id, base + 1)] = self.elem(coll, site)
            elif kind == "retain2":
                env[(sub.id, base)] = pool.mks("elem", (site, "K"), coll)
                env[(sub.id, base + 1)] = pool.mks("elem", (site, "V"), coll)
            else:
                env[(sub.id, base)] = self.elem(coll, site)
        elif sh == "functions::spawn":
            pass
        else:
            if f.argc >= base:
                src = coll
                if sh.startswith("Result"):
                    env[(sub.id, base)] = self.okval(src) if sh != "Result::map_err" and sh != "Result::unwrap_or_else" else pool.mk("vfield", src, "Err", "0")
                else:
                    env[(sub.id, base)] = self.vfield(src, "Some", "0")
        env[(inst_key(sub), "coll")] = coll
        env[(inst_key(sub), "arg1")] = args[1] if len(args) > 1 else coll

    def _closure_result(self, n, inst, sub, t, sh, env, other=None):
        pool = self.pool
        coll = env.get((inst_key(sub), "coll"))
        # closure's return value at its return node(s): find from the out env of the return nodes
        rets = []
        for r in sub.retnodes:
            e = self.env_out.get(r.id)
            if e is not None and (sub.id, 0) in e:
                rets.append(e[(sub.id, 0)])
        if other is not None:
            both = [(r.id, self.env_out[r.id][(x.id, 0)]) for x in (sub, other) for r in x.retnodes if r.id in self.env_out and (x.id, 0) in self.env_out[r.id]]
            if len({w.id for _, w in both}) == 1:
                val = both[0][1]
            elif both:
                val = pool.mks("phi", n.id, (sub.id, 0))
                self.phis[val.id] = both
            else:
                val = pool.mk("unk", "closure")
            for k in [k for k in env if k[0] in (sub.id, inst_key(sub), other.id)]:
                del env[k]
            self.write(n, inst, env, t["dst"], val, t["line"])
            return
        if len(set(x.id for x in rets)) == 1:
            rv = rets[0]
        elif rets:
            rv = pool.mks("phi", n.id, (sub.id, 0))
            self.phis[rv.id] = [(r.id, self.env_out[r.id][(sub.id, 0)]) for r in sub.retnodes if r.id in self.env_out]
        else:
            rv = pool.mk("unk", "closure")
        kind = ITER_CLOSURE.get(sh)
        site = n.inst.callnode
        el = None
        for p in sub.fn.locals[:0]:
            pass
        base = 2 if sub.fn.kind == "Closure" else 1
        cn = sub.callnode.id
        if kind in ("map", "flat_map", "filter_map"):
            if kind == "filter_map":
                val = pool.mk("mapped", coll, self.vfield(rv, "Some", "0"), rv, sh)
            else:
                val = pool.mk("mapped", coll, rv, rv, sh)
        elif kind == "filter":
            val = pool.mk("filtered", coll, self.elem(coll, cn), rv, sh)
        elif kind == "partition":
            val = pool.mk("agg", "tuple", None, ("0", "1"), pool.mk("filtered", coll, self.elem(coll, cn), rv, "Iterator::filter"), pool.mk("filtered", coll, self.elem(coll, cn), self.notv(rv), "Iterator::filter"))
        elif kind in ("any", "all"):
            val = pool.mk(kind, coll, self.elem(coll, cn), rv)
        elif kind == "find":
            val = pool.mk("found", coll, rv, self.elem(coll, cn))
        elif kind == "position":
            val = pool.mk("position", coll, rv, self.elem(coll, cn))
        elif kind == "inspect":
            val = coll
        elif kind in ("retain", "retain2"):
            val = pool.mk("const", "()", "()")
        elif sh in ("Option::map", "Option::and_then", "Result::map", "Result::and_then"):
            val = coll if sh == "Option::map" and rv is self.vfield(coll, "Some", "0") else pool.mk("optmap", coll, rv) if sh == "Option::map" else pool.mks("optthen", n.id, coll, rv)
        elif kind == "fold":
            val = pool.mks("call", n.id, sh, coll, rv, env.get((inst_key(sub), "arg1"), coll))
        elif sh == "Option::map_or" and coll is not None:
            val = pool.mk("call", sh, coll, rv, env.get((inst_key(sub), "arg1"), coll))
        elif sh in ("Option::is_some_and", "Option::is_none_or") and coll is not None:
            val = pool.mk("call", sh, coll, rv)
        else:
            val = pool.mks("call", n.id, sh, coll if coll is not None else pool.mk("unk", "c"), rv)
        args = [coll, rv]
        if coll is not None:
            n.events.append(Event("call", sh, args, val, n, t["line"], inst, len(n.events), extra=sub))
        for k in [k for k in env if k[0] in (sub.id, inst_key(sub))]:
            del env[k]
        self.write(n, inst, env, t["dst"], val, t["line"])

    def _call(self, n, inst, env, t, path):
        mk = self.pool.mk
        pool = self.pool
        raw = [self.operand(inst, env, a) for a in t["args"]]
        args = []
        for a in raw:
            v = a
            c = 0
            while v.op == "mutref" and c < 6:
                v = self.mutref_read(env, v)
                c += 1
            args.append(v)
        line = t["line"]
        extra = raw
        fnr = t["fn"].get("fn") or {}
        if path is None:
            fv = self.operand(inst, env, t["fn"])
            if fv.op == "fnc":
                path = fv.a[0]
            else:
                val = pool.mks("call", n.id, "indirect", fv, *args)
                n.events.append(Event("call", "indirect", [fv] + args, val, n, line, inst, len(n.events), extra=raw))
                self.write(n, inst, env, t["dst"], val, line)
                return
        local = path in self.crate.fns or fnr.get("trait") in getattr(self.crate, "local_traits", ())
        sh = short(path)
        val = None
        name = path if local else sh
        if sh in TRANSPARENT and args:
            # Default clone of a whole argument; keep mutable identity for deref_mut/as_mut
            if sh in ("DerefMut::deref_mut", "Option::as_mut", "RefCell::borrow_mut", "BorrowMut::borrow_mut"):
                val = raw[0]
            else:
                val = args[0]
            name = sh
        elif sh in ("Iterator::map", "Option::map") and len(args) > 1 and args[1].op == "fnc" and short(args[1].a[0]) in TRANSPARENT:
            val = args[0]
        elif sh in ("Index::index", "IndexMut::index_mut"):
            val = self.index(args[0], args[1])
        elif sh in ("Vec::len", "slice::len", "String::len", "str::len", "HashMap::len"):
            val = mk("len", args[0])
        elif sh in ("Vec::is_empty", "slice::is_empty"):
            val = self.binop("Eq", mk("len", args[0]), mk("const", "usize", 0))
        elif sh in ("PartialEq::eq", "PartialEq::ne"):
            a, b = args[0], args[1]
            if a.id > b.id:
                a, b = b, a
            val = self.binop("Eq", a, b)
            if sh == "PartialEq::ne":
                val = self.notv(val)
        elif sh in ("intrinsics::discriminant_value", "mem::discriminant") and args and args[0].op == "agg" and args[0].a[0] in self.crate.adts:
            val = mk("const", "isize", self.crate.variants(args[0].a[0]).index(args[0].a[1]))
        elif sh in BINOPS:
            val = self.binop(BINOPS[sh], args[0], args[1])
        elif sh in ASSIGNOPS:
            val = mk("const", "()", "()")
            nv = self.binop(ASSIGNOPS[sh], args[0], args[1])
            if raw[0].op == "mutref":
                tgt = self._target(env, raw[0])
                self._store(env, raw[0], nv)
                n.events.append(Event("lwrite", None, [raw[0], nv], nv, n, line, inst, len(n.events), extra=tgt))
            else:
                n.events.append(Event("write", None, [args[0], nv], nv, n, line, inst, len(n.events)))
        elif sh == "Neg::neg":
            val = mk("un", "Neg", args[0])
        elif sh == "Not::not":
            val = mk("un", "Not", args[0])
        elif sh == "Iterator::next" or sh == "StreamExt::next":
            val = pool.mks("next", n.id, args[0]) if False else pool.mk("next", args[0], ("@", n.id))
            if n.id not in val.sites:
                val.sites = val.sites | {n.id}
        elif sh in ("Option::unwrap", "Option::expect"):
            val = self.vfield(args[0], "Some", "0")
        elif sh in ("Result::unwrap", "Result::expect"):
            val = self.okval(args[0])
        elif sh == "Option::is_some":
            val = self.isv(args[0], "Some")
        elif sh == "Option::is_none":
            val = self.notv(self.isv(args[0], "Some"))
        elif sh == "Result::is_ok":
            val = self.isv(args[0], "Ok")
        elif sh == "Result::is_err":
            val = self.notv(self.isv(args[0], "Ok"))
        elif sh == "Try::branch":
            dt = inst.fn.locals[t["dst"]["l"]]["t"] if not t["dst"].get("p") else ""
            val = mk("branch", args[0], "Option" if "ControlFlow<core::option::Option<" in dt.replace("std::", "core::") else "")
        elif sh == "FromResidual::from_residual" and not t["dst"].get("p") and inst.fn.locals[t["dst"]["l"]]["t"].replace("std::", "core::").startswith("core::option::Option<"):
            val = mk("agg", "core::option::Option", "None", ())
        elif sh == "Vec::new" or sh == "HashMap::new" or sh == "String::new" or sh == "Vec::with_capacity" or sh == "Box::new_uninit":
            val = pool.mks("new", n.id, sh)
        elif sh == "Iterator::nth":
            val = mk("nth", args[0], args[1])
        elif sh in PURE_EXT or path in self.pure:
            val = mk("call", name, *args)
        elif sh in ("mem::replace", "mem::swap", "mem::take", "Option::take", "Option::replace"):
            val = pool.mks("call", n.id, name, *args)
            if sh in ("mem::replace", "Option::take", "mem::take"):
                val = args[0]
            if raw[0].op == "mutref":
                nv = args[1] if sh == "mem::replace" else pool.mks("unk", n.id, "taken")
                if sh == "Option::take":
                    nv = mk("agg", "core::option::Option", "None", ())
                if sh == "mem::swap":
                    nv = args[1]
                    if raw[1].op == "mutref":
                        self._store(env, raw[1], args[0])
                self._store(env, raw[0], nv)
        elif sh in ("Vec::remove", "Vec::swap_remove") and len(args) > 1 and args[1].op == "vfield" and args[1].a[0].op == "position" and args[1].a[0].a[0] is args[0]:
            val = args[1].a[0].a[2]
        else:
            val = pool.mks("call", n.id, name, *args)
            # a number or flag handed over by &mut is whatever the callee made of it
            self._outs(n, env, raw, args, val)
        if path in self.pure and sh not in PURE_EXT:
            self._outs(n, env, raw, args, val)
        ev = Event("call", name, args, val, n, line, inst, len(n.events), extra=raw)
        n.events.append(ev)
        self.write(n, inst, env, t["dst"], val, line)

    def _outs(self, n, env, raw, args, val):
        for k, (r, a) in enumerate(zip(raw, args)):
            if r.op == "mutref" and a.op in ("const", "out") and (a.op == "out" or a.a[0] in ("bool", "i64", "i32", "u32", "u64", "usize", "isize", "f64", "f32", "i8", "u8", "char")):
                self._store(env, r, self.pool.mks("out", n.id, val, k))

    def isv(self, v, variant):
        if v.op == "agg" and v.a[1]:
            return self.pool.mk("const", "bool", v.a[1] == variant)
        if v.op == "optmap":
            return self.isv(v.a[0], variant)
        if v.op == "call" and v.a[0] == "FromResidual::from_residual" and variant in ("Ok", "Err"):
            return self.pool.mk("const", "bool", variant == "Err")
        return self.pool.mk("isv", v, variant)

    def notv(self, v):
        if v.op == "const" and v.a[0] == "bool":
            return self.pool.mk("const", "bool", not v.a[1])
        if v.op == "un" and v.a[0] == "Not":
            return v.a[1]
        return self.pool.mk("un", "Not", v)

    # -------------------------------------------------------- facts
    def edge_facts(self, n, label):
        """list of alternative fact lists contributed by leaving n over `label` ([] alternative = no fact);
        None = infeasible"""
        if label is None or n.info is None:
            return []
        if n.info[0] == "assert":
            return self.lit(n.info[1], bool(n.info[2]))
        if n.info[0] == "copt":
            src = self.optsrc.get(n.info[1].id)
            if src is not None and n.info[1].cont == "bool::then":
                return self.lit(src, label[1])
            return [] if src is None else self.eqfact(self.pool.mk("discr", src, ((0, "None"), (1, "Some"))), 1, label[1])
        if n.info[0] != "switch":
            return []
        v = n.info[1]
        if label[0] == "sw":
            return self.eqfact(v, label[1], True, n.info[2])
        out = []
        vals = label[1]
        if len(vals) == 1:
            return self.eqfact(v, vals[0], False, n.info[2])
        for x in vals:
            f = self.eqfact(v, x, False, n.info[2])
            if f is None:
                return None
            out += f
        # exclude all but one variant -> positive knowledge
        if v.op == "discr" and v.a[1]:
            rest = [nm for d, nm in v.a[1] if d not in vals]
            if len(rest) == 1:
                f = self.lit(self.isv(v.a[0], rest[0]), True)
                if f is None:
                    return None
                out += f
        return out

    def eqfact(self, v, x, pos, ty=None):
        """facts for (v == x) being pos; v is the switched operand"""
        if v.op == "discr":
            nm = dict(v.a[1]).get(x)
            if nm is None:
                return []
            subj = v.a[0]
            if subj.op == "branch":
                okn = nm == "Continue"
                if subj.a[1] == "Option":
                    if subj.a[0].op in ("next", "found", "position"):
                        return self.eqfact(self.pool.mk("discr", subj.a[0], ((0, "None"), (1, "Some"))), 1, okn == pos)
                    return self.lit(self.isv(subj.a[0], "Some"), okn == pos)
                return self.lit(self.pool.mk("isok", subj.a[0]), okn == pos)
            if subj.op in ("next", "found", "position"):
                f = self.lit(self.isv(subj, nm), pos)
                if f is None:
                    return None
                some = (nm == "Some") == pos
                if some:
                    # elements of a filtered stream satisfy the predicate
                    c = subj.a[0]
                    pf = []
                    if subj.op in ("found", "position"):
                        pf = self.lit(subj.a[1], True) or []
                    seen = 0
                    while seen < 8:
                        seen += 1
                        if c.op == "filtered":
                            pf += self.lit(c.a[2], True) or []
                            c = c.a[0]
                        elif c.op == "mapped":
                            if c.a[3] == "Iterator::filter_map":
                                pf += self.lit(self.isv(c.a[2], "Some"), True) or []
                            c = c.a[0]
                        elif c.op == "call" and c.a[0] in ("Iterator::enumerate", "Iterator::rev", "Iterator::skip", "Iterator::take"):
                            c = c.a[1]
                        else:
                            break
                    f = f + pf
                return f
            f = self.lit(self.isv(subj, nm), pos)
            if f is None:
                return None
            if len(v.a[1]) == 2 and not pos:
                other = [b for a, b in v.a[1] if a != x][0]
                g = self.lit(self.isv(subj, other), True)
                if g is None:
                    return None
                f = f + g
            elif pos:
                # being variant X excludes nothing further (handled by contradiction test)
                pass
            return f
        if v.op == "const":
            cv = v.a[1]
            if isinstance(cv, bool):
                cv = int(cv)
            if isinstance(cv, int):
                return [] if ((cv == x) == pos) else None
            return []
        # bool switch: 0 = false
        if ty == "bool" or ty is None and self.is_bool(v):
            return self.lit(v, (x != 0) == pos)
        return self.lit(self.binop("Eq", v, self.pool.mk("const", ty or "int", x)), pos)

    def is_bool(self, v):
        if v.op == "bin":
            return v.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or v.a[0] in ("BitAnd", "BitOr")
        if v.op in ("isv", "isok", "any", "all"):
            return True
        if v.op == "un":
            return v.a[0] == "Not"
        if v.op in ("len", "cast", "count"):
            return False
        if v.op == "phi":
            return True if self._phi_bool(v, set()) else False
        if v.op in ("call", "field", "param", "vfield", "elem", "idx", "cidx", "okval", "unk", "upd"):
            return True     # integer matches on these are rare; refined below
        return False

    def _phi_bool(self, v, seen):
        if v.id in seen:
            return True
        seen.add(v.id)
        for _, w in self.phis.get(v.id, []):
            if w.op == "const":
                if not isinstance(w.a[1], bool):
                    return False
            elif w.op == "phi":
                if not self._phi_bool(w, seen):
                    return False
            elif not self.is_bool(w):
                return False
        return True

    def lit(self, v, pol):
        """fact list for boolean value v == pol; None if contradictory"""
        if v.op == "const":
            c = v.a[1]
            if isinstance(c, bool):
                return [] if c == pol else None
            return []
        if v.op == "un" and v.a[0] == "Not":
            return self.lit(v.a[1], not pol)
        if v.op == "bin" and v.a[0] == "Ne":
            return self.lit(self.pool.mk("bin", "Eq", v.a[1], v.a[2]), not pol)
        if v.op == "bin" and v.a[0] == "BitAnd" and pol:
            a = self.lit(v.a[1], True)
            b = self.lit(v.a[2], True)
            return None if a is None or b is None else a + b
        if v.op == "bin" and v.a[0] == "BitOr" and not pol:
            a = self.lit(v.a[1], False)
            b = self.lit(v.a[2], False)
            return None if a is None or b is None else a + b
        if v.op == "bin" and v.a[0] == "Eq":
            for i, j in ((1, 2), (2, 1)):
                if v.a[i].op == "const" and v.a[i].a[0] == "bool":
                    return self.lit(v.a[j], v.a[i].a[1] == pol)
                # comparison with a field-less enum value
                if v.a[i].op == "agg" and v.a[i].a[1] and len(v.a[i].a) == 3:
                    return self.lit(self.isv(v.a[j], v.a[i].a[1]), pol)
        if v.op == "isv" and pol is False and v.a[1] == "None":
            return self.lit(self.isv(v.a[0], "Some"), True)
        if v.op == "isv" and pol is True and v.a[1] == "None":
            return self.lit(self.isv(v.a[0], "Some"), False)
        if v.op == "isv" and v.a[0].op == "position" and v.a[1] == "Some":
            return [(v, pol)]
        return [(v, pol)]

    def _solve_facts(self):
        """facts: node id -> list of disjuncts (frozenset of (value id, polarity)); also keeps id->V"""
        self.vals = {}
        self.loop_of = {}
        self.env_vals = {}
        self.IN, self.OUT = self.solve(self.root.meta[0].id, [frozenset()])
        for n in self.nodes:
            n.facts = self.IN.get(n.id)

    def solve(self, root, init, stops=(), region=None):
        """facts of the paths that start at node root with the disjuncts init (and end at stops)"""
        IN = {root: init}
        OUT = {}
        import collections
        pos = {u: i for i, u in enumerate(self.order)}
        work = [root]
        inwork = {root}
        rounds = collections.Counter()
        import heapq
        heap = [(pos[root], root)]
        while heap:
            _, u = heapq.heappop(heap)
            inwork.discard(u)
            n = self.nodes[u]
            rounds[u] += 1
            if u != root:
                ds = []
                for p, label in n.pred:
                    if p not in OUT or p in stops and p != root:
                        continue
                    pd = OUT[p]
                    pn = self.nodes[p]
                    ef = self.edge_facts(pn, label)
                    if ef is None:
                        continue
                    isback = (p, u) in self.back
                    body = self.loops.get(u) if isback else None
                    binds = self._edge_binds(p, u)
                    for d in pd:
                        nd = self._extend(d, ef)
                        if nd is None:
                            continue
                        if body is not None:
                            nd = frozenset(f for f in nd if not (self.vals[f[0]].sites & body_sites(body)))
                        if binds:
                            nd = nd | binds
                        ds.append(nd)
                ds = self._simplify(u, ds)
                if rounds[u] > 12:
                    # force convergence: weaken to the common facts
                    ds = [frozenset.intersection(*ds)] if ds else ds
                    if u in IN and IN[u]:
                        ds = [frozenset.intersection(*(ds + IN[u]))] if ds else ds
                if u in IN and set(IN[u]) == set(ds) and u in OUT:
                    continue
                IN[u] = ds
            out = self._kill(n, IN[u])
            if u in OUT and set(OUT[u]) == set(out):
                pass
            OUT[u] = out
            if u in stops and u != root:
                continue
            for s, _ in n.succ:
                if s not in inwork and s != root and s in pos and (region is None or s in region):
                    inwork.add(s)
                    heapq.heappush(heap, (pos[s], s))
            if sum(rounds.values()) > 400000:
                self.warnings.append("facts did not converge")
                break
        return IN, OUT

    def _edge_binds(self, p, u):
        """phi := value bindings (only for values that decide later branches)"""
        key = (p, u)
        c = self.__dict__.setdefault("_bindcache", {})
        if key in c:
            return c[key]
        out = set()
        ins = self.__dict__.setdefault("_phi_by_node", None)
        if ins is None:
            ins = {}
            for pid, lst in self.phis.items():
                for (q, w) in lst:
                    ins.setdefault(pid, []).append((q, w))
            self._phi_by_node = ins
            self._phis_at = {}
            for v in list(self.pool.t.values()):
                if v.op == "phi" and v.id in self.phis:
                    self._phis_at.setdefault(v.a[-1][1], []).append(v)
        for ph in self._phis_at.get(u, []):
            for q, w in self.phis[ph.id]:
                if q == p and w is not ph:
                    if w.op in ("const",) or (w.op == "agg" and w.a[1]) or self.is_boolish(w):
                        b = self.pool.mk("bind", ph, w)
                        self.vals[b.id] = b
                        out.add((b.id, True))
        c[key] = frozenset(out)
        return c[key]

    def is_boolish(self, w):
        return w.op in ("isv", "any", "all", "isok") or (w.op == "bin" and w.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")) or \
            (w.op == "un" and w.a[0] == "Not") or (w.op == "call" and w.a[0] in self.pure) or (w.op == "phi") or (w.op == "call" and isinstance(w.a[0], str) and w.a[0] in PURE_EXT) or \
            w.op in ("next", "found", "optmap", "optthen", "call")

    def _extend(self, d, facts):
        """add literal facts to a disjunct, using bindings; None if contradictory"""
        if not facts:
            return d
        cur = set(d)
        todo = list(facts)
        n = 0
        while todo and n < 200:
            n += 1
            v, pol = todo.pop()
            self.vals[v.id] = v
            if (v.id, not pol) in cur:
                return None
            if v.op == "isv" and pol:
                # another variant already known?
                for (i, q) in cur:
                    x = self.vals[i]
                    if q and x.op == "isv" and x.a[0] is v.a[0] and x.a[1] != v.a[1] and not {x.a[1], v.a[1]} <= {"Some", "Ok"}:
                        return None
            if (v.id, pol) in cur:
                continue
            cur.add((v.id, pol))
            # use bindings
            subj = v if v.op == "phi" else (v.a[0] if v.op in ("isv", "isok") and v.a[0].op == "phi" else None)
            if subj is not None:
                for (i, q) in list(cur):
                    x = self.vals[i]
                    if x.op == "bind" and x.a[0] is subj:
                        w = x.a[1]
                        if v.op == "phi":
                            f = self.lit(w, pol)
                        elif v.op == "isv":
                            f = self.lit(self.isv(w, v.a[1]), pol)
                        else:
                            f = []
                        if f is None:
                            return None
                        todo += f
            if v.op == "bin" and v.a[0] == "Eq" and (v.a[1].op == "phi" or v.a[2].op == "phi"):
                for ph, other in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    if ph.op != "phi" or other.op != "const":
                        continue
                    for (i, q) in list(cur):
                        x = self.vals[i]
                        if x.op == "bind" and x.a[0] is ph and x.a[1].op == "const":
                            if (str(x.a[1].a[1]) == str(other.a[1])) != pol:
                                return None
        return frozenset(cur)

    def _live_phis(self, u):
        c = self.__dict__.setdefault("_livecache", {})
        r = c.get(u)
        if r is None:
            r = set()
            pc = self.__dict__.setdefault("_phisub", {})
            for v in self.env_out.get(u, {}).values():
                s = pc.get(v.id)
                if s is None:
                    s = frozenset(x.id for x in subvalues(v).values() if x.op == "phi")
                    pc[v.id] = s
                r |= s
            # the joins below an optional value: what is known about them is known when it is there
            for i in list(r):
                for _, w in self.phis.get(i, ()):
                    if w.op == "agg" and w.a[1] == "Some":
                        r |= {x.id for x in subvalues(w).values() if x.op == "phi"}
            # a live join of joins: which of them was taken stays relevant
            todo = [x for x in r if self._byid(x).a[-1] == ("@", u)]
            while todo:
                for _, w in self.phis.get(todo.pop(), ()):
                    if w.op == "phi" and w.id not in r:
                        r.add(w.id)
                        todo.append(w.id)
            c[u] = r
        return r

    def _byid(self, i):
        m = self.__dict__.get("_idmap")
        if m is None or i not in m:
            m = self._idmap = {v.id: v for v in self.pool.t.values()}
        return m[i]

    def _phis_in(self, vid):
        c = self.__dict__.setdefault("_phisin", {})
        s = c.get(vid)
        if s is None:
            s = frozenset(x.id for x in subvalues(self.vals[vid]).values() if x.op == "phi")
            c[vid] = s
        return s

    @staticmethod
    def _absorb(ds):
        uniq = list(dict.fromkeys(ds))
        if len(uniq) > 1:
            uniq.sort(key=len)
            out = []
            for d in uniq:
                if not any(o <= d for o in out):
                    out.append(d)
            uniq = out
        return uniq

    def _simplify(self, u, ds):
        if not ds:
            return ds
        live = self._live_phis(u)
        # facts about phis that no live variable holds any more can never be consulted again
        ds = [frozenset(f for f in d if not (self._phis_in(f[0]) - live)) for d in ds]
        uniq = self._absorb(ds)
        if len(uniq) > self.maxdisj:
            # keep the correlation with the values bound at this join, intersect the rest
            groups = {}
            for d in uniq:
                k = frozenset(f for f in d if self.vals[f[0]].op == "bind" and ("@", u) == self.vals[f[0]].a[0].a[-1])
                groups.setdefault(k, []).append(d)
            if len(groups) == 1:
                groups = {}
                for d in uniq:
                    k = frozenset(f for f in d if self.vals[f[0]].op == "bind")
                    groups.setdefault(k, []).append(d)
            uniq = self._absorb([frozenset.intersection(*g) for g in groups.values()])
        if len(uniq) > self.maxdisj:
            uniq = [frozenset.intersection(*uniq)]
        return uniq

    def _kill(self, n, ds):
        """facts invalidated by the node's writes/mutations"""
        dead = []
        for e in n.events:
            if e.kind == "write":
                dead.append(e.args[0])
            elif e.kind == "call" and e.name in MUTATORS and e.args:
                dead.append(e.args[0])
        if not dead:
            return ds
        ids = {d.id for d in dead}
        # taking an element out or adding one does not change the elements themselves
        soft = all(e.kind == "call" and e.name in ("Vec::remove", "Vec::swap_remove") for e in n.events if e.kind == "write" or e.kind == "call" and e.name in MUTATORS and e.args)
        out = []
        for d in ds:
            nd = set()
            for f in d:
                if not ids & self._subs(f[0]):
                    nd.add(f)
                    continue
                if soft and not ids & self._outer(f[0]):
                    nd.add(f)
                    continue
                x = self.vals[f[0]]
                if x.op == "bind" and f[1] and x.a[1].op == "agg" and x.a[1].a[1]:
                    # what the variable refers to has changed, but not which variant it is
                    var = x.a[1].a[1]
                    k = self.pool.mk("isv", x.a[0], "Some" if var == "None" else var)
                    self.vals[k.id] = k
                    nd.add((k.id, var != "None"))
            out.append(frozenset(nd))
        return list(dict.fromkeys(out))

    def _outer(self, vid):
        """sub-values, without those of which the value is an element"""
        seen, st = set(), [self.vals[vid]]
        while st:
            x = st.pop()
            if x.id not in seen:
                seen.add(x.id)
                if x.op not in ("elem", "position", "found", "next"):
                    st.extend(kids(x))
        return seen

    def _subs(self, vid):
        c = self.__dict__.setdefault("_subcache", {})
        s = c.get(vid)
        if s is None:
            s = frozenset(subvalues(self.vals[vid]).keys())
            c[vid] = s
        return s

    # -------------------------------------------------------- queries
    def events(self, kind=None, name=None):
        for u in self.order:
            n = self.nodes[u]
            if n.facts is None or n.facts == []:
                continue     # infeasible
            for e in n.events:
                if kind is not None and e.kind != kind:
                    continue
                if name is not None:
                    if callable(name):
                        if not name(e.name):
                            continue
                    elif e.name != name:
                        continue
                yield e

    def facts_at(self, node):
        """list of disjuncts: dict V->bool"""
        fs = node.facts or []
        return [[(self.vals[i], p) for i, p in d] for d in fs]

    def holds(self, node, pred):
        """pred(V, polarity) satisfied by some fact in every disjunct"""
        fs = self.facts_at(node)
        return bool(fs) and all(any(pred(v, p) for v, p in d) for d in fs)

    def leaves(self, v, seen=None):
        """non-phi values that may flow into v through phis"""
        if seen is None:
            seen = {}
        if v.id in seen:
            return []
        seen[v.id] = 1
        if v.op == "phi":
            out = []
            for _, w in self.phis.get(v.id, []):
                out += self.leaves(w, seen)
            return out
        return [v]

    def leaves_with_edges(self, v, seen=None):
        """(value, pred node) pairs: which edge selects which non-phi value"""
        if seen is None:
            seen = {}
        if v.id in seen:
            return []
        seen[v.id] = 1
        out = []
        if v.op == "phi":
            for p, w in self.phis.get(v.id, []):
                if w.op == "phi":
                    out += self.leaves_with_edges(w, seen)
                else:
                    out.append((w, p))
        return out

    def expand(self, v, depth=4, limit=64, seen=()):
        """all phi-free (up to `depth` phi levels) instances of the expression v"""
        if v.op == "phi":
            if v.id in seen or depth == 0:
                return [v]
            out = []
            for _, w in self.phis.get(v.id, []):
                for x in self.expand(w, depth - 1, limit, seen + (v.id,)):
                    if x is not v and x not in out:
                        out.append(x)
                if len(out) > limit:
                    return [v]
            return out or [v]
        ks = kids(v)
        if not ks or not any(self._hasphi(k) for k in ks):
            return [v]
        alts = [[]]
        for x in v.a:
            if isinstance(x, V) and self._hasphi(x):
                ex = self.expand(x, depth, limit, seen)
            else:
                ex = [x]
            alts = [a + [y] for a in alts for y in ex]
            if len(alts) > limit:
                return [v]
        return list(dict.fromkeys(self.rebuild(v, a) for a in alts))

    def _hasphi(self, v):
        return any(x.op == "phi" for x in subvalues(v).values())

    def rebuild(self, v, a):
        op = v.op
        if op == "field":
            return self.field(a[0], a[1])
        if op == "vfield":
            return self.vfield(a[0], a[1], a[2])
        if op == "bin":
            return self.binop(a[0], a[1], a[2])
        if op == "okval":
            return self.okval(a[0])
        r = self.pool.mk(op, *a)
        if v.sites - r.sites:
            r.sites = r.sites | v.sites
        return r

    def find_values(self, pred):
        return [v for v in self.pool.t.values() if pred(v)]


def body_sites(body):
    c = _bs.get(id(body))
    if c is None or c[0] is not body:
        s = set(body)
        for x in body:
            s.add((x, "A"))
            s.add((x, "B"))
            s.add((x, "K"))
            s.add((x, "V"))
        c = (body, frozenset(s))
        _bs[id(body)] = c
    return c[1]


_bs = {}


def inst_key(sub):
    return ("clo", sub.id)
