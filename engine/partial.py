"""Operations that can panic, and what discharges them: facts on the path about the same string, collection or option."""
import q
from vg import V, kids

UNWRAP = ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
CUT = ("str::split_at", "String::truncate", "String::remove", "String::drain", "Vec::remove", "Vec::swap_remove", "Vec::drain", "String::insert", "String::split_off", "Vec::split_off",
       "slice::split_at", "Vec::insert", "Vec::split_at", "slice::copy_from_slice", "RefCell::borrow_mut", "Option::unwrap_unchecked")
PANIC = ("panicking::", "begin_panic", "unreachable", "process::exit", "process::abort")


def const(v):
    return v.a[1] if isinstance(v, V) and v.op == "const" else None


def num(v):
    c = const(v)
    if isinstance(c, bool):
        return None
    try:
        return int(c)
    except (ValueError, TypeError):
        return None


def lit(v):
    """byte length of a literal string or character pattern, if it is ASCII"""
    c = const(v)
    if isinstance(c, str):
        s = c
        if v.a[0] == "char" and len(s) != 1:
            return 1 if s.isdigit() and int(s) < 128 else None
        try:
            s.encode("ascii")
        except UnicodeError:
            return None
        return len(s)
    if isinstance(c, int) and not isinstance(c, bool):
        return 1 if c < 128 else None
    return None


def is_call(v, *names):
    return isinstance(v, V) and v.op == "call" and v.a[0] in names


def len_of(v, s):
    return isinstance(v, V) and (v.op == "len" and v.a[0] is s or is_call(v, "String::len", "str::len", "Vec::len", "slice::len") and v.a[1] is s)


def facts(d):
    return [(f, p) for f, p in d if isinstance(f, V)]


def min_len(d, s):
    """least length of s under the facts d (a lower bound)"""
    m = 0
    for f, p in facts(d):
        if f.op == "bin" and len(f.a) >= 3:
            op, a, b = f.a[0], f.a[1], f.a[2]
            for x, y, flip in ((a, b, False), (b, a, True)):
                if not len_of(x, s) or num(y) is None:
                    continue
                k = num(y)
                if op == "Eq":
                    m = max(m, k if p else (1 if k == 0 else 0))
                elif op == "Ne":
                    m = max(m, (1 if k == 0 else 0) if p else k)
                elif op == "Lt":       # a < b
                    if flip:           # k < len
                        m = max(m, k + 1 if p else 0)
                    else:              # len < k
                        m = max(m, 0 if p else k)
                elif op == "Le":
                    if flip:           # k <= len
                        m = max(m, k if p else 0)
                    else:
                        m = max(m, 0 if p else k + 1)
        elif is_call(f, "str::is_empty", "String::is_empty", "Vec::is_empty", "slice::is_empty") and f.a[1] is s and not p:
            m = max(m, 1)
        elif is_call(f, "str::starts_with", "str::ends_with") and p and f.a[1] is s and lit(f.a[2]) is not None:
            m = max(m, lit(f.a[2]))
        elif is_call(f, "PartialEq::eq") and p and s in (f.a[1], f.a[2]):
            o = f.a[2] if f.a[1] is s else f.a[1]
            if lit(o) is not None:
                m = max(m, lit(o))
        elif f.op == "isv" and p and f.a[1] == "Some" and is_call(f.a[0], "str::strip_prefix", "str::strip_suffix") and f.a[0].a[1] is s and lit(f.a[0].a[2]) is not None:
            m = max(m, lit(f.a[0].a[2]))
    return m


def prefix(d, s):
    """length of a known ASCII prefix of s"""
    m = 0
    for f, p in facts(d):
        if p and is_call(f, "str::starts_with") and f.a[1] is s and lit(f.a[2]) is not None:
            m = max(m, lit(f.a[2]))
        elif p and f.op == "isv" and f.a[1] == "Some" and is_call(f.a[0], "str::strip_prefix") and f.a[0].a[1] is s and lit(f.a[0].a[2]) is not None:
            m = max(m, lit(f.a[0].a[2]))
        elif p and (is_call(f, "PartialEq::eq") or f.op == "bin" and f.a[0] == "Eq"):
            x, y = f.a[1], f.a[2]
            o = y if x is s else x if y is s else None
            if o is not None and lit(o) is not None:
                m = max(m, lit(o))
    return m


def suffix(d, s):
    m = 0
    for f, p in facts(d):
        if p and is_call(f, "str::ends_with") and f.a[1] is s and lit(f.a[2]) is not None:
            m = max(m, lit(f.a[2]))
        elif p and f.op == "isv" and f.a[1] == "Some" and is_call(f.a[0], "str::strip_suffix") and f.a[0].a[1] is s and lit(f.a[0].a[2]) is not None:
            m = max(m, lit(f.a[0].a[2]))
    return m


def payload_of(v):
    """x of x.Some.0 / x.Ok.0"""
    if isinstance(v, V) and v.op == "vfield":
        return v.a[0]
    if isinstance(v, V) and v.op == "okval":
        return v.a[0]
    return None


FIND = ("str::find", "str::rfind")


REVS = set()      # the iterators which are reversed in the graph analysed


def last_char(v, s):
    """v is the last character of s"""
    if isinstance(v, V) and v.op == "elem" and v.a[0].id in REVS and is_call(v.a[0], "str::chars") and v.a[0].a[1] is s:
        return True
    o = payload_of(v)
    if o is None:
        return False
    if is_call(o, "Iterator::last", "DoubleEndedIterator::next_back") and is_call(o.a[1], "str::chars") and o.a[1].a[1] is s:
        return True
    if o.op == "next" and any(is_call(x, "Iterator::rev") for x in q.subs(o)) and any(is_call(x, "str::chars") and x.a[1] is s for x in q.subs(o)):
        return True
    return o.op == "last" and any(x is s for x in q.subs(o))


def boundary(d, s, b):
    """b is a character boundary of the string s, within it"""
    if len_of(b, s) or num(b) == 0:
        return True
    n = num(b)
    if n is not None:
        return n <= prefix(d, s) or any(p and is_call(f, "str::is_char_boundary") and f.a[1] is s and num(f.a[2]) == n for f, p in facts(d))
    o = payload_of(b)
    if o is not None and is_call(o, *FIND) and o.a[1] is s:
        return True
    if is_call(b, "str::len", "String::len", "len") or b.op == "len":
        x = b.a[0] if b.op == "len" else b.a[1]
        # the length of what was trimmed from s at the end, or of a literal prefix
        if is_call(x, "str::trim_end", "str::trim_end_matches") and x.a[1] is s:
            return True
        if isinstance(x, V) and payload_of(x) is not None and is_call(payload_of(x), "str::strip_suffix") and payload_of(x).a[1] is s:
            return True
        if lit(x) is not None and lit(x) <= prefix(d, s):
            return True
        return False
    if b.op == "bin" and b.a[0] in ("Add", "AddUnchecked", "AddWithOverflow"):
        for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
            o = payload_of(x)
            if o is not None and is_call(o, *FIND) and o.a[1] is s:
                k = num(y)
                if k is None and isinstance(y, V) and y.op == "len":
                    k = lit(y.a[0])
                if is_call(y, "char::len_utf8", "str::len"):
                    k = lit(y.a[1])
                w = lit(o.a[2])
                if k is not None and w is not None and k <= w:
                    return True
        return False
    if b.op == "bin" and b.a[0] in ("Sub", "SubUnchecked") and len_of(b.a[1], s):
        k = num(b.a[2])
        if k is None and isinstance(b.a[2], V) and b.a[2].op == "len":
            k = lit(b.a[2].a[0])
        if k is not None:
            return k <= suffix(d, s) or k == 0 or k == 1 and last_is_ascii(d, s)
        if is_call(b.a[2], "char::len_utf8") and last_char(b.a[2].a[1], s):
            return True
        return False
    if b.op == "field" or b.op == "vfield":
        return any(is_call(x, "str::char_indices") and x.a[1] is s for x in q.subs(b))
    return False


def last_is_ascii(d, s):
    for f, p in facts(d):
        if p and f.op == "bin" and f.a[0] == "Eq":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if isinstance(x, V) and last_char(x, s) and lit(y) == 1:
                    return True
    return False


def some(d, v):
    """the option/result v is Some/Ok under d: True, or False if nothing says so"""
    if v.op == "agg":
        return v.a[1] in ("Some", "Ok")
    for f, p in facts(d):
        if f.op == "isv" and f.a[0] is v:
            if p and f.a[1] in ("Some", "Ok") or not p and f.a[1] in ("None", "Err"):
                return True
        if f.op == "isok" and f.a[0] is v and p:
            return True
        if p and f.op == "un" and f.a[0] == "Not" and f.a[1].op == "isv" and f.a[1].a[0] is v and f.a[1].a[1] in ("None", "Err"):
            return True
    if v.op == "optmap":
        return some(d, v.a[0])
    if is_call(v, "Iterator::last", "Iterator::next", "DoubleEndedIterator::next_back") and is_call(v.a[1], "str::chars", "str::bytes", "str::char_indices"):
        return min_len(d, v.a[1].a[1]) >= 1
    if v.op in ("next", "last", "first"):
        src = v.a[0]
        if is_call(src, "str::split", "str::lines_any", "str::splitn", "str::rsplit"):
            return True
        for x in q.subs(src):
            if is_call(x, "str::chars", "str::bytes"):
                return min_len(d, x.a[1]) >= 1
        return min_len(d, src) >= 1
    if is_call(v, "slice::first", "slice::last", "Vec::first", "Vec::last", "Vec::pop", "String::pop"):
        return min_len(d, v.a[1]) >= 1
    if is_call(v, "str::strip_prefix") and lit(v.a[2]) is not None:
        return any(p and is_call(f, "str::starts_with") and f.a[1] is v.a[1] and const(f.a[2]) == const(v.a[2]) for f, p in facts(d))
    if is_call(v, "str::strip_suffix") and lit(v.a[2]) is not None:
        return any(p and is_call(f, "str::ends_with") and f.a[1] is v.a[1] and const(f.a[2]) == const(v.a[2]) for f, p in facts(d))
    if is_call(v, "str::find", "str::rfind"):
        return any(p and is_call(f, "str::contains", "str::ends_with", "str::starts_with") and f.a[1] is v.a[1] and const(f.a[2]) == const(v.a[2]) for f, p in facts(d))
    if is_call(v, "str::get", "slice::get", "Vec::get") and num(v.a[2]) is not None:
        return min_len(d, v.a[1]) > num(v.a[2])
    if is_call(v, "Mutex::lock", "RwLock::read", "RwLock::write", "JoinHandle::join"):
        return True
    return False


def strtype(t):
    t = t.replace("&", "").replace("mut ", "").strip()
    t = t.split(" ")[-1] if t.startswith("'") else t
    return t in ("str", "alloc::string::String", "std::string::String") or t.endswith("::String")


def argtype(e, i):
    """type of the i-th argument of the call of event e"""
    n = e.node
    try:
        t = e.inst.fn.blocks[n.bb]["t"]
        o = t["args"][i]
        return e.inst.fn.locals[o["pl"]["l"]]["t"] if "pl" in o and not o["pl"]["p"] else ""
    except (KeyError, IndexError, TypeError, AttributeError):
        return ""


def operations(g, scope):
    """(what, node, discharged(d) -> bool, text) for every operation of the functions in scope that can panic"""
    out = []
    reversals(g)
    for n in g.nodes:
        if not n.facts:
            continue
        for e in n.events:
            if not scope(e.inst.fn.path):
                continue
            if e.kind == "diverge":
                out.append(("panic", n, e.line, e.inst, lambda d: False, "%s is called" % e.name))
            if e.kind != "call":
                continue
            nm = e.name
            if nm in UNWRAP:
                out.append(("unwrap", n, e.line, e.inst, lambda d, v=e.args[0]: some(d, v), "%s of %s" % (nm, shown(e.args[0]))))
            elif nm in ("Index::index", "IndexMut::index_mut") and len(e.args) > 1:
                out.append(("index", n, e.line, e.inst, lambda d, e=e, g=g: indexed(g, d, e), "index %s of %s" % (shown(e.args[1]), shown(e.args[0]))))
            elif nm in CUT:
                out.append(("cut", n, e.line, e.inst, lambda d, e=e: len(e.args) > 1 and (boundary(d, e.args[0], e.args[1]) if strtype(argtype(e, 0)) else num(e.args[1]) is not None and num(e.args[1]) < min_len(d, e.args[0])), "%s(%s)" % (nm, ", ".join(shown(a) for a in e.args))))
            elif any(x in nm for x in PANIC):
                out.append(("panic", n, e.line, e.inst, lambda d: False, "an explicit panic or exit"))
        if n.info and n.info[0] == "assert" and scope(n.inst.fn.path):
            msg, ops = n.info[3], n.info[4]
            if msg.startswith("overflow:Sub") and len(ops) == 2:
                out.append(("sub", n, n.line, n.inst, lambda d, ops=ops: no_underflow(d, ops[0], ops[1]), "%s - %s" % (shown(ops[0]), shown(ops[1]))))
            elif msg.startswith("bounds") and len(ops) == 2:
                out.append(("bounds", n, n.line, n.inst, lambda d, n=n, ops=ops: inbounds(g, d, n, ops), "index %s below %s" % (shown(ops[1]), shown(ops[0]))))
            elif msg.startswith("div") or msg.startswith("rem"):
                out.append(("div", n, n.line, n.inst, lambda d, n=n: const(n.info[1]) is not None, "division by zero"))
    return out


def reversals(g):
    REVS.clear()
    REVS.update(e.args[0].id for e in g.events("call") if e.name == "Iterator::rev" and e.args)


def shown(v):
    from vg import show
    return show(v, 5)


def no_underflow(d, a, b):
    if isinstance(a, V) and (a.op == "len" or is_call(a, "String::len", "str::len", "Vec::len")):
        s = a.a[0] if a.op == "len" else a.a[1]
        k = num(b)
        if k is None and isinstance(b, V) and b.op == "len":
            k = lit(b.a[0])
        if k is not None and k <= max(min_len(d, s), suffix(d, s), prefix(d, s)):
            return True
        if is_call(b, "char::len_utf8") and last_char(b.a[1], s):
            return True
        if isinstance(b, V) and payload_of(b) is not None and is_call(payload_of(b), *FIND) and payload_of(b).a[1] is s:
            return True
    if num(a) is not None and num(b) is not None:
        return num(a) >= num(b)
    # a guard a >= b
    for f, p in facts(d):
        if f.op == "bin" and f.a[0] in ("Lt", "Le") and len(f.a) >= 3:
            if p and f.a[1] is b and f.a[2] is a or not p and f.a[0] in ("Lt", "Le") and f.a[1] is a and f.a[2] is b:
                return True
    # signed arithmetic of counters does not come near its bounds
    return False


def indexed(g, d, e):
    s, i = e.args[0], e.args[1]
    if i.op == "agg" and "Range" in i.a[0]:
        fs = i.a[3:]
        if strtype(argtype(e, 0)) or not is_vec(s):
            return all(boundary(d, s, b) for b in fs) and (len(fs) < 2 or not i.a[0].endswith("Range") or ascending(d, s, fs[0], fs[1]))
        return all(len_of(b, s) or num(b) is not None and num(b) <= min_len(d, s) or is_call(b, "Ord::min") for b in fs)
    n = num(i)
    if n is not None:
        return n < min_len(d, s) or longer(s, n)
    return ranged(g, d, s, i)


def ascending(d, s, a, b):
    """a <= b, both boundaries of s"""
    if num(a) == 0 or len_of(b, s):
        return True
    if num(a) is not None and num(b) is not None:
        return num(a) <= num(b)
    for f, p in facts(d):
        if f.op == "bin" and f.a[0] in ("Lt", "Le") and (p and f.a[1] is a and f.a[2] is b or not p and f.a[1] is b and f.a[2] is a):
            return True
    # behind a match of a character which isn't the last one
    x = a.a[1] if a.op == "bin" and a.a[0].startswith("Add") and num(a.a[2]) == 1 else a.a[2] if a.op == "bin" and a.a[0].startswith("Add") and num(a.a[1]) == 1 else a
    o = payload_of(x)
    if b.op == "bin" and b.a[0].startswith("Sub") and len_of(b.a[1], s) and num(b.a[2]) is not None:
        k = num(b.a[2])
        if num(a) is not None:
            return num(a) + k <= min_len(d, s)
        if o is not None and is_call(o, *FIND) and o.a[1] is s and k == 1:
            ch = str(const(o.a[2]))
            return any(p and is_call(f, "str::ends_with") and f.a[1] is s and lit(f.a[2]) == 1 and str(const(f.a[2])) != ch for f, p in facts(d))
    return False


def longer(s, n):
    if s.op == "agg" and s.a[0] in ("array", "tuple"):
        return n < len(s.a) - 3
    return False


def is_vec(s):
    return is_call(s, "str::split", "str::split_whitespace", "str::lines") or s.op in ("new", "mapped", "filtered")


def ranged(g, d, s, i):
    """i runs over 0..len(s)"""
    for x in q.subs(i):
        if x.op == "agg" and "Range" in x.a[0]:
            if any(len_of(y, s) for y in q.subs(x)):
                return True
    for f, p in facts(d):
        if p and f.op == "bin" and f.a[0] == "Lt" and f.a[1] is i and len_of(f.a[2], s):
            return True
    return False


def inbounds(g, d, n, ops):
    a, i = ops
    if num(a) is not None and num(i) is not None:
        return num(i) < num(a)
    if isinstance(a, V) and a.op == "len":
        if num(i) is not None:
            return num(i) < min_len(d, a.a[0]) or longer(a.a[0], num(i))
        return ranged(g, d, a.a[0], i)
    return False
