"""Lock analysis over MIR: which locks may be held where, and what is acquired while they are held.

A lock is abstracted by the type it protects and, where it can be traced, by the field it is stored in (through calls, captures and
clones of Arcs).  Guards live from the acquisition to their drop; moves of guards are followed.
"""
import re
from mir import callee

ACQ = {
    "lock_api::rwlock::RwLock::<R, T>::read": "R", "lock_api::rwlock::RwLock::<R, T>::write": "W",
    "lock_api::rwlock::RwLock::<R, T>::read_recursive": "RR", "lock_api::rwlock::RwLock::<R, T>::upgradable_read": "R",
    "lock_api::mutex::Mutex::<R, T>::lock": "W", "std::sync::poison::mutex::Mutex::<T>::lock": "W",
    "std::sync::poison::rwlock::RwLock::<T>::read": "R", "std::sync::poison::rwlock::RwLock::<T>::write": "W",
}
TRY = ("try_read", "try_write", "try_lock")
THROUGH = re.compile(r"(Deref>::deref|DerefMut>::deref_mut|Clone>::clone|Index.*>::index|AsRef.*>::as_ref|Borrow.*>::borrow|::as_ref|::unwrap|::as_deref|::iter|::get|IntoIterator>::into_iter|Iterator>::next|::expect|::get_mut|::iter_mut|::to_owned|::as_mut)$")


def args_of(ty):
    """top-level generic arguments of a type string"""
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def protected(ty):
    """type a lock type protects: RwLock<R, T> / Mutex<T> behind references"""
    while ty.startswith("&"):
        ty = ty[1:].lstrip()
        if ty.startswith("mut "):
            ty = ty[4:]
        ty = re.sub(r"^'\w+ ", "", ty)
    m = re.match(r"(?:lock_api|std::sync)[\w:]*::(?:RwLock|Mutex)<", ty)
    if not m:
        return None
    a = args_of(ty)
    return a[-1] if a else None


AMBIG = set()        # names of several ADTs of the crate: kept with their module


def short(ty):
    ty = re.sub(r"((?:\w+::)+)(\w+)", lambda m: m.group(0) if m.group(0) in AMBIG else m.group(2), ty)
    ty = ty.replace("RawRwLock, ", "").replace(", Global", "")
    return ty


def is_guard(ty):
    return "Guard<" in ty and not ty.startswith("&")


class Acq:
    """an acquisition: lock (type, origin), mode, where, through which calls"""
    __slots__ = ("ty", "org", "mode", "fn", "line", "via")

    def __init__(self, ty, org, mode, fn, line, via=()):
        self.ty, self.org, self.mode, self.fn, self.line, self.via = ty, org, mode, fn, line, via

    def key(self):
        return (self.ty, self.org, self.mode)

    def where(self):
        return "%s:%s" % (self.fn, self.line)

    def at(self):
        s = self.where()
        return s + (" via " + " > ".join(self.via) if self.via else "")


class Locks:
    def __init__(self, crate):
        self.c = crate
        names = [p.split("::")[-1] for p in crate.adts]
        AMBIG.clear()
        AMBIG.update(p for p in crate.adts if names.count(p.split("::")[-1]) > 1)
        self.fn = {}
        self.sum = {}          # fn -> {key: Acq}   acquired in fn or its callees (same thread)
        self.edges = {}        # fn -> [(Acq held, Acq or ("send", ...) acquired)]
        self.impl = {}
        for i in crate.impls:
            for n, p in i["items"]:
                self.impl.setdefault((i["trait"], n), []).append(p)
        self.orgs = {}
        made = set()
        for f in crate.fns.values():
            for b in f.blocks:
                for x in b["s"]:
                    if x["k"] == "=" and x["rv"].get("k") == "agg" and x["rv"].get("ak") == "adt":
                        made.add(x["rv"]["adt"])
        self.made = made

    # ---- origins
    def origin(self, f, local, depth=10, seen=None):
        """where a lock reference in `local` comes from: ("field", Type, name) | ("param", i, rest) | None"""
        seen = seen or set()
        if depth == 0 or local in seen:
            return None
        seen = seen | {local}
        d = self.defs(f).get(local, [])
        if not d and 1 <= local <= f.argc:
            return ("param", local)
        if len(d) != 1:
            return ("local", f.path, local)
        kind, x = d[0]
        if kind == "rv":
            k = x["k"]
            pl = x.get("pl") or (x.get("o") or {}).get("pl")
            if k in ("use", "ref", "raw", "cast") and pl is not None:
                return self.place_origin(f, pl, depth - 1, seen)
            return ("local", f.path, local)
        if kind == "call":
            p = callee(x) or ""
            nm = p.split("::")[-1]
            if nm in ("next", "next_back"):
                return ("local", f.path, local)
            if THROUGH.search(p) and x["args"] and "pl" in x["args"][0]:
                o = self.place_origin(f, x["args"][0]["pl"], depth - 1, seen)
                if o is not None and nm in ("index", "index_mut", "get", "get_mut") and len(x["args"]) > 1:
                    i = x["args"][1]
                    o = o + (("[]", f.path, self.copyroot(f, i["pl"]["l"])) if "pl" in i else ("[]", str(i.get("val"))),)
                return o
        return ("local", f.path, local)

    def copyroot(self, f, l, n=8):
        while n:
            n -= 1
            d = self.defs(f).get(l, [])
            if len(d) == 1 and d[0][0] == "rv" and d[0][1]["k"] in ("use", "ref") and not ((d[0][1].get("pl") or d[0][1]["o"].get("pl") or {"p": [1]})["p"]):
                l = (d[0][1].get("pl") or d[0][1]["o"]["pl"])["l"]
            else:
                break
        return l

    def place_origin(self, f, pl, depth, seen):
        proj = pl["p"]
        names = [(i, e["f"]) for i, e in enumerate(proj) if isinstance(e, dict) and "f" in e]
        # last named field of an adt
        for i, n in reversed(names):
            if not n.isdigit():
                t = self.type_before(f, pl, i)
                if t is not None and "{closure" in t:
                    return ("capture", n)
                return ("field", short(t) if t else "?", n)
            if self.type_before(f, pl, i) and "closure" in self.type_before(f, pl, i):
                return ("capture", n)
        if pl["l"] == 1 and f.kind == "Closure" and names:
            return ("capture", names[0][1])
        return self.origin(f, pl["l"], depth, seen)

    def type_before(self, f, pl, i):
        """type of the place before projection i, where it can be read off the local's type"""
        t = f.locals[pl["l"]]["t"]
        for e in pl["p"][:i]:
            if e == "*":
                t = re.sub(r"^&('\w+ )?(mut )?", "", t)
                m = re.match(r"[\w:]*Box<(.*)>$", t)
                if m and not t.startswith("&"):
                    t = args_of(t)[0]
            elif isinstance(e, dict) and "f" in e:
                t = self.field_type(t, e["f"])
            else:
                t = None
            if t is None:
                return None
        return t

    def field_type(self, t, name):
        a = self.c.adts.get(t.split("<")[0])
        if a is None:
            return None
        for v in a["variants"]:
            for x in v["fields"]:
                if x[0] == name:
                    return x[1]
        return None

    def defs(self, f):
        d = self.fn.get(f.path)
        if d is None:
            d = {}
            for b in f.blocks:
                if b["c"]:
                    continue
                for s in b["s"]:
                    if s["k"] == "=" and not s["pl"]["p"]:
                        d.setdefault(s["pl"]["l"], []).append(("rv", s["rv"]))
                t = b["t"]
                if t["k"] == "call" and not t["dst"]["p"]:
                    d.setdefault(t["dst"]["l"], []).append(("call", t))
            self.fn[f.path] = d
        return d

    # ---- callees
    def targets(self, t):
        """functions of the crate a call may enter in the same thread"""
        p = callee(t)
        out = []
        if p is None:
            return out
        if p in self.c.fns:
            out.append(p)
        else:
            m = re.match(r"(.*)::(\w+)$", p)
            if m and (m.group(1), m.group(2)) in self.impl:
                out += [x for x in self.impl[(m.group(1), m.group(2))] if x in self.c.fns and self.instantiated(x)]
        return out

    def instantiated(self, path):
        """the type a trait method belongs to is constructed somewhere in the crate (or is not a local struct)"""
        t = self.c.fns[path].self_ty
        t = t.split("<")[0] if t else None
        return t is None or t not in self.c.adts or t in self.made or not any(v["fields"] for v in self.c.adts[t]["variants"])

    def closures(self, f):
        """closures created in f: {local: path}"""
        out = {}
        for b in f.blocks:
            for s in b["s"]:
                if s["k"] == "=" and s["rv"].get("k") == "agg" and s["rv"].get("ak") in ("closure", "coroutine") and s["rv"].get("def") in self.c.fns:
                    out[s["pl"]["l"]] = (s["rv"]["def"], s["rv"])
        return out

    # ---- summaries
    def run(self):
        fns = [f for f in self.c.fns.values()]
        changed = True
        for f in fns:
            self.sum[f.path] = {}
        n = 0
        while changed and n < 40:
            changed = False
            n += 1
            for f in fns:
                s = self.flow(f)
                old = self.sum[f.path]
                if set(s) != set(old):
                    changed = True
                    for k, a in s.items():
                        old.setdefault(k, a)
        return self

    def lift(self, f, t, a, cl=None):
        """acquisition a of a callee seen from the call t in f"""
        org = a.org
        if org and org[0] == "param":
            i = org[1] - 1
            org = self.place_origin(f, t["args"][i]["pl"], 10, set()) if cl is None and i < len(t["args"]) and "pl" in t["args"][i] else None
        elif org and org[0] == "capture":
            org = self.captured(f, cl, org[1])
        return Acq(a.ty, org, a.mode, a.fn, a.line, ((t_name(t),) + a.via)[:6])

    def captured(self, f, cl, name):
        if cl is None:
            return None
        path, rv = cl
        g = self.c.fns[path]
        names = g.d.get("upvars") or []
        fs = rv["fs"]
        i = names.index(name) if name in names else int(name) if name.isdigit() else None
        if i is None or i >= len(fs) or "pl" not in fs[i]:
            return None
        return self.place_origin(f, fs[i]["pl"], 10, set())

    def joined(self, f, l, cls, n=8):
        """the closure run by the thread whose handle is in l"""
        while n:
            n -= 1
            d = self.defs(f).get(l, [])
            if len(d) != 1:
                return None
            k, x = d[0]
            if k == "call":
                if self.spawn(x):
                    for o in x["args"]:
                        if "pl" in o:
                            c = self.copyroot(f, o["pl"]["l"])
                            for y in (c, o["pl"]["l"]):
                                if y in cls:
                                    return ("thread", cls[y][0])
                return None
            pl = x.get("pl") or (x.get("o") or {}).get("pl")
            if pl is None:
                return None
            l = pl["l"]
        return None

    def spawn(self, t):
        p = callee(t) or ""
        return "spawn" in p.split("::")[-1]

    def flow(self, f):
        res = {}
        edges = []
        cls = self.closures(f)
        IN = {0: {}}
        work = [0]
        done = {}
        while work:
            b = work.pop()
            st = dict(IN[b])
            if done.get(b) == freeze(st):
                continue
            done[b] = freeze(st)
            blk = f.blocks[b]
            if blk["c"]:
                continue
            for s in blk["s"]:
                self.stmt(f, s, st)
            t = blk["t"]
            self.term(f, t, st, res, edges, cls)
            for x in succs(t):
                if f.blocks[x]["c"]:
                    continue
                cur = IN.get(x)
                new = merge(cur, st)
                if cur is None or freeze(new) != freeze(cur):
                    IN[x] = new
                    work.append(x)
        self.edges[f.path] = edges
        return res

    def stmt(self, f, s, st):
        if s["k"] == "dead":
            st.pop(s["l"], None)
        elif s["k"] == "=":
            rv = s["rv"]
            ops = [rv.get("o")] if rv.get("o") else rv.get("fs", [])
            moved = []
            for o in ops:
                if isinstance(o, dict) and o.get("k") == "move" and o["pl"]["l"] in st:
                    if is_guard_place(f, o["pl"]):
                        moved += st.pop(o["pl"]["l"])
            if moved:
                st.setdefault(s["pl"]["l"], [])
                st[s["pl"]["l"]] = st[s["pl"]["l"]] + moved

    def term(self, f, t, st, res, edges, cls):
        k = t["k"]
        if k == "drop":
            if not t["pl"]["p"] or True:
                st.pop(t["pl"]["l"], None)
            return
        if k != "call":
            return
        p = callee(t) or ""
        held = [a for v in st.values() for a in v]
        got = []
        if p in ACQ:
            o = t["args"][0]
            ty = protected(f.locals[o["pl"]["l"]]["t"]) if "pl" in o else None
            a = Acq(short(ty or "?"), self.place_origin(f, o["pl"], 10, set()) if "pl" in o else None, ACQ[p], f.path, t["line"])
            got = [a]
        elif p.split("::")[-1] in TRY and ("Lock" in p or "Mutex" in p):
            # never waits, but holds what it gets
            o = t["args"][0]
            ty = protected(f.locals[o["pl"]["l"]]["t"]) if "pl" in o else None
            if ty:
                st[t["dst"]["l"]] = [Acq(short(ty), self.place_origin(f, o["pl"], 10, set()), "R" if p.endswith("read") else "W", f.path, t["line"])]
            return
        else:
            for g in self.targets(t):
                for a in self.sum[g].values():
                    got.append(self.lift(f, t, a))
            # closures handed over run in the callee (or, spawned, in another thread)
            if not self.spawn(t):
                for o in t["args"]:
                    if "pl" in o and o["pl"]["l"] in cls:
                        for a in self.sum[cls[o["pl"]["l"]][0]].values():
                            got.append(self.lift(f, t, a, cls[o["pl"]["l"]]))
                    elif o.get("k") == "const" and o.get("closure") in self.c.fns:
                        for a in self.sum[o["closure"]].values():
                            got.append(self.lift(f, t, a))
            nm = p.split("::")[-1]
            if nm in ("send", "recv", "join", "recv_timeout") and ("mpsc" in p or "thread" in p or "channel" in p) and not p.endswith("mpsc::Sender::<T>::send"):
                o = t["args"][0]
                ty = re.sub(r"^&('\w+ )?(mut )?", "", f.locals[o["pl"]["l"]]["t"]) if "pl" in o else "?"
                a = args_of(ty)
                org = None
                if nm == "join" and "pl" in o:
                    org = self.joined(f, o["pl"]["l"], cls)
                got.append(Acq(nm[:4] + " " + short(a[0] if a else "?"), org, "wait", f.path, t["line"]))
        for a in got:
            if a.key() not in res or len(a.via) < len(res[a.key()].via):
                res.setdefault(a.key(), a)
            for h in held:
                edges.append((h, a, t["line"]))
        # guards in and out
        moved = []
        for o in t["args"]:
            if o.get("k") == "move" and o["pl"]["l"] in st and is_guard_place(f, o["pl"]):
                moved += st.pop(o["pl"]["l"])
        dt = f.locals[t["dst"]["l"]]["t"]
        if is_guard(dt) or dt.startswith(("core::result::Result<", "core::option::Option<")) and "Guard<" in dt:
            new = moved if moved else got if p in ACQ else [a for a in got if short_guard(dt) in (None, a.ty)]
            st[t["dst"]["l"]] = new
        elif moved and "Guard<" in dt:
            st[t["dst"]["l"]] = moved


    def callees(self, f):
        """[(callee path, call terminator or None, closure or None)] entered in the same thread"""
        out = []
        cls = self.closures(f)
        sp = set()
        for b in f.blocks:
            t = b["t"]
            if t["k"] != "call" or b["c"]:
                continue
            if self.spawn(t):
                for o in t["args"]:
                    if "pl" in o:
                        sp |= {o["pl"]["l"], self.copyroot(f, o["pl"]["l"])}
                continue
            out += [(g, t, None) for g in self.targets(t)]
            for o in t["args"]:
                if o.get("k") == "const" and o.get("closure") in self.c.fns:
                    out.append((o["closure"], t, None))
        out += [(p, None, (p, rv)) for l, (p, rv) in cls.items() if l not in sp]
        return out

    def reach(self, roots):
        seen, st = set(), list(roots)
        while st:
            p = st.pop()
            if p in seen or p not in self.c.fns:
                continue
            seen.add(p)
            st += [g for g, _, _ in self.callees(self.c.fns[p])]
        return seen

    def sites(self):
        """callee -> [(caller Fn, call, closure)], spawned closures included"""
        if not hasattr(self, "_sites"):
            self._sites = {}
            for f in self.c.fns.values():
                for g, t, cl in self.callees(f):
                    self._sites.setdefault(g, []).append((f, t, cl))
                for l, (p, rv) in self.closures(f).items():
                    if not any(x[0] is f and x[2] for x in self._sites.get(p, [])):
                        self._sites.setdefault(p, []).append((f, None, (p, rv)))
        return self._sites

    def fields(self, fn, org, depth=6, seen=()):
        """the fields {"Type.field"} a lock may be stored in, seen from fn; "?" where it cannot be traced"""
        if org is None or depth == 0 or (fn, org) in seen:
            return {"?"}
        if org[0] == "field":
            return {org[1] + "." + org[2]}
        if org[0] in ("param", "capture"):
            out = set()
            for f, t, cl in self.sites().get(fn, []):
                if org[0] == "capture":
                    o = self.captured(f, cl, org[1]) if cl else None
                else:
                    i = org[1] - 1
                    o = self.place_origin(f, t["args"][i]["pl"], 10, set()) if t is not None and i < len(t["args"]) and "pl" in t["args"][i] else None
                out |= self.fields(f.path, o, depth - 1, seen + ((fn, org),))
            return out or {"?"}
        if org[0] == "local" and len(org) == 3 and org[1] in self.c.fns:
            f = self.c.fns[org[1]]
            out = set()
            for k, x in self.defs(f).get(org[2], []):
                o = None
                if k == "rv":
                    pl = x.get("pl") or (x.get("o") or {}).get("pl")
                    o = self.place_origin(f, pl, 10, set()) if pl is not None else None
                elif THROUGH.search(callee(x) or "") and x["args"] and "pl" in x["args"][0] and not (callee(x) or "").endswith("next"):
                    o = self.place_origin(f, x["args"][0]["pl"], 10, set())
                out |= self.fields(f.path, o, depth - 1, seen + ((fn, org),))
            return out or {"?"}
        return {"?"}


def short_guard(dt):
    m = re.search(r"\w*Guard<(.*)>", dt)
    if not m:
        return None
    a = args_of("X<%s>" % m.group(1))
    return short(a[-1]) if a else None


def is_guard_place(f, pl):
    return "Guard<" in f.locals[pl["l"]]["t"]


def spawns(L):
    """[(function, line, closure path, in a loop)]"""
    out = []
    for f in L.c.fns.values():
        cls = L.closures(f)
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if t["k"] == "call" and L.spawn(t) and not b["c"]:
                for o in t["args"]:
                    if "pl" in o:
                        r = L.copyroot(f, o["pl"]["l"])
                        for y in {r, o["pl"]["l"]}:
                            if y in cls:
                                out.append((f.path, t["line"], cls[y][0], reaches(f, i, i)))
                            else:
                                # an async fn: the coroutine its call returns
                                d = L.defs(f).get(y, [])
                                for k, x in d:
                                    if k == "call":
                                        p = callee(x) or ""
                                        co = [q for q in L.c.fns if q.startswith(p + "::{closure")]
                                        out += [(f.path, t["line"], q, reaches(f, i, i)) for q in co[:1]]
    return out


def reaches(f, a, b):
    seen, st = set(), [a]
    while st:
        for s in succs(f.blocks[st.pop()]["t"]):
            if s == b:
                return True
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False


def t_name(t):
    return "%s:%s" % ((callee(t) or "?").split("<")[-1], t["line"])


def succs(t):
    out = []
    for k in ("to", "else"):
        v = t.get(k)
        if isinstance(v, int):
            out.append(v)
    for x in t.get("ts") or []:
        out.append(x[1] if isinstance(x, (list, tuple)) else x)
    return out


def merge(a, b):
    if a is None:
        return {k: list(v) for k, v in b.items()}
    out = {k: list(v) for k, v in a.items()}
    for k, v in b.items():
        have = {x.key() for x in out.get(k, [])}
        out.setdefault(k, [])
        out[k] += [x for x in v if x.key() not in have]
    return out


def freeze(st):
    return frozenset((k, x.key()) for k, v in st.items() for x in v)
