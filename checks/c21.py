"""C21: the reasoner's threads never wait for each other in a circle."""
import re

import locks

LEVEL = "other"
RULE = ("Over every function of the crate, per thread: no lock is taken again while the thread holds it (exclusively on either side, or shared while another thread may be waiting to write); "
        "no two threads can hold and wait for the same locks in opposite orders; and nothing held across a blocking send, receive or join is needed by the thread that would end the wait.")
ASSUME = ["a lock is identified by the type it protects and the field it is stored in; elements of collections taken from different places are different objects (the deriver checks that the premises are not the same task)",
          "DeclarativeShared.procMem is the evidence memory of the procedural reasoner (wired so in main), never the declarative one",
          "a waiting writer holds back new readers, as parking_lot's RwLock does", "no lock or guard is smuggled through a dyn object other than the traits of this crate"]
COLL = re.compile(r"(Vec|HashMap|VecDeque|BTreeMap|HashSet|BinaryHeap)<")
ALIAS = {"ProcNar.evidenceMem": "DeclarativeShared.procMem"}


class Model:
    def __init__(self, c):
        self.c = c
        self.L = locks.Locks(c).run()
        self.classify()
        self.threads()
        self._id = {}

    # ---- which locks exist once
    def classify(self):
        adts = self.c.adts
        plural = set()
        fields = []
        for n, a in adts.items():
            for v in a["variants"]:
                for f in v["fields"]:
                    fields.append((n, f[0], f[1]))
        for n, f, t in fields:
            m = COLL.search(t)
            if m:
                plural |= {x for x in adts if re.search(r"(?<![\w:])%s(?!\w)" % re.escape(x), t[m.start():])}
        while True:
            more = {x for n, f, t in fields if n in plural for x in adts if x not in plural and re.search(r"(?<![\w:])%s(?!\w)" % re.escape(x), t)}
            if not more:
                break
            plural |= more
        self.single = {}     # protected type -> fields that hold exactly one such lock
        many = set()
        for n, f, t in fields:
            for m in re.finditer(r"(?:RwLock|Mutex)<", t):
                depth, i = 0, m.end() - 1
                for j in range(i, len(t)):
                    depth += {"<": 1, ">": -1}.get(t[j], 0)
                    if depth == 0:
                        break
                inner = locks.short(locks.args_of("X" + t[i:j + 1])[-1])
                inner = inner.replace("(dyn QHandler + 'static)", "dyn QHandler")
                if COLL.search(t[:m.start()]) or n in plural or "Option<" in t[:m.start()]:
                    many.add(inner)
                else:
                    self.single.setdefault(inner, []).append(locks.short(n) + "." + f)
        for x in many:
            self.single.pop(x, None)
        self.split = {}
        for ty, fs in self.single.items():
            fs = {ALIAS.get(x, x) for x in fs}
            owners = [x.split(".")[0] for x in fs]
            if len(fs) > 1 and (len(set(owners)) < len(owners) or ty == "ThreadRng"):
                self.split[ty] = fs

    def ids(self, fn, a):
        """the locks an acquisition may denote"""
        k = (fn, a.ty, a.org)
        if k not in self._id:
            if a.ty in self.split:
                s = {ALIAS.get(x, x) for x in self.L.fields(fn, a.org)}
                s = s & self.split[a.ty] if s & self.split[a.ty] else set(self.split[a.ty])
                self._id[k] = frozenset(s)
            else:
                self._id[k] = frozenset([a.ty])
        return self._id[k]

    def one(self, a):
        return a.ty in self.single or a.ty not in self.single and a.ty in self.split

    # ---- threads
    def threads(self):
        L = self.L
        sp = locks.spawns(L)
        self.spawned = sp
        started = {p for _, _, p, _ in sp}
        called = set()
        for f in self.c.fns.values():
            called |= {g for g, _, _ in L.callees(f)}
        roots = [p for p in self.c.fns if p not in called and p not in started]
        spawners = {}
        for f, _, p, _ in sp:
            spawners.setdefault(p, set()).add(f)
        core = {f for f, _, p, _ in sp if "createMem2" in f and "closure" not in f}
        T = {}
        main = list(roots)
        for f, line, p, loop in sp:
            r = L.reach([p])
            if r & core:
                main.append(p)
                continue
            T.setdefault(p, [r, False])
            T[p][1] = T[p][1] or loop and not self.joined(f, p)
        # the reasoner's own thread; its entry points exclude each other
        T["main"] = [L.reach(main), False]
        self.T = {k: v[0] for k, v in T.items()}
        self.multi = {k: v[1] for k, v in T.items()}
        self.acq = {}
        self.edges = {}
        for k, fs in self.T.items():
            A, E = {}, []
            for p in fs:
                for a in L.sum[p].values():
                    if a.fn == p:
                        A.setdefault((p, a.key()), (p, a))
                for h, a, line in L.edges.get(p, []):
                    E.append((p, h, a, line))
            self.acq[k], self.edges[k] = list(A.values()), E

    def joined(self, f, p):
        return any(a.ty.startswith("join") and a.org == ("thread", p) for a in self.L.sum[f].values())

    def others(self, *ts):
        """threads that may run beside those named"""
        for k in self.T:
            if ts.count(k) < (2 if self.multi[k] else 1):
                yield k

    def writers(self, ids, *ts):
        for k in self.others(*ts):
            for p, a in self.acq[k]:
                if a.mode == "W" and self.ids(p, a) & ids:
                    return k, a
        return None

    def conflict(self, ids, m1, m2, *ts):
        """a thread taking the lock in m2 waits for one holding it in m1: reason or None"""
        if "W" in (m1, m2):
            return "exclusive"
        if m2 == "RR":
            return None
        w = self.writers(ids, *ts)
        return "%s may be waiting to write at %s" % (name(w[0]), w[1].where()) if w else None


def name(k):
    return "the reasoner's thread" if k == "main" else "the thread started as " + k


def mode(a):
    return {"R": "shared", "RR": "shared", "W": "exclusively"}[a.mode]


def check(rep):
    M = Model(rep.c)
    for x in M.T.values():
        rep.analysed |= x
    rep.floor("threads", len(M.T), 3, "threads of the program: the reasoner, the deriver, its helper, the evidence store, the server's connections")
    rep.floor("locks", sum(len(x) for x in M.acq.values()), 80, "acquisitions of locks analysed")
    selfs(rep, M)
    orders(rep, M)
    waits(rep, M)


def selfs(rep, M):
    seen = set()
    for k in M.T:
        for p, h, a, line in M.edges[k]:
            if a.mode == "wait" or h.ty != a.ty:
                continue
            ids = M.ids(p, h) & M.ids(p, a)
            if not ids:
                continue
            if a.ty in M.single:
                if len(M.ids(p, h)) > 1 or len(M.ids(p, a)) > 1:
                    continue            # which of several locks is not known
            elif not same(M, p, h, a):
                continue
            key = "%s/%s/%s/%s" % (p.split("::")[-1], "|".join(sorted(ids)), h.where(), a.where())
            if (key, k) in seen:
                continue
            seen.add((key, k))
            why = M.conflict(ids, h.mode, a.mode, k)
            rep.check(why is None, "self", key,
                      "%s: in %s (line %s) the lock of %s is taken %s at %s while the same thread holds it %s since %s%s" % (name(k), p, line, "/".join(sorted(ids)), mode(a) if a.mode in "RRW" else a.mode, a.at(), mode(h), h.at(), ": it waits for itself" if why == "exclusive" else ", and %s: both wait for ever" % why if why else "; no other thread writes it"))
    rep.floor("self", sum(len(e) for e in M.edges.values()), 80, "pairs of a held lock and an operation under it")


def same(M, p, h, a):
    """two acquisitions of elements of collections certainly of the same object"""
    if h.org is None or a.org is None or h.org != a.org:
        return False
    o = h.org
    if o[0] == "field":
        owner = o[1]
        full = [x for x in M.c.adts if locks.short(x) == owner]
        return owner == "DeriverWorkMessage" and len(o) == 3 and h.fn == a.fn == p or bool(len(o) > 3 and h.fn == a.fn == p and o[-1][0] == "[]" and full)
    if o[0] in ("param", "local"):
        return True
    return False


def orders(rep, M):
    """circular waits over two or three threads"""
    G = {}
    for k in M.T:
        for p, h, a, line in M.edges[k]:
            if a.mode == "wait" or h.mode == "wait":
                continue
            for x in M.ids(p, h):
                for y in M.ids(p, a):
                    if x == y and x in M.single:
                        continue
                    G.setdefault((k, x, y, h.mode, a.mode), (p, h, a, line))
    E = list(G.items())
    by = {}
    for (k, x, y, m, m2), v in E:
        by.setdefault(x, []).append((k, x, y, m, m2, v))
    bad = {}

    def search(path):
        k, x, y, m, m2, v = path[-1]
        for e in by.get(y, []):
            ts = [q[0] for q in path]
            if ts.count(e[0]) >= (2 if M.multi[e[0]] else 1):
                continue
            # the last thread waits for y in m2 which e's thread holds in e[3]
            if e[2] == path[0][1]:
                full = path + [e]
                if all(M.conflict(frozenset([full[i][2]]), full[(i + 1) % len(full)][3], full[i][4], *[q[0] for q in full]) for i in range(len(full))):
                    key = tuple(sorted({q[1] for q in full}))
                    bad.setdefault(key, full)
            elif len(path) < 3 and all(q[1] != e[1] for q in path):
                search(path + [e])
    for (k, x, y, m, m2), v in E:
        search([(k, x, y, m, m2, v)])
    for key, full in sorted(bad.items()):
        rep.bad("order", "/".join(key), "; ".join("%s holds %s (%s) and then takes %s (%s) in %s" % (name(q[0]), q[1], q[5][1].at(), q[2], q[5][2].at(), q[5][0]) for q in full) + ": the threads can wait for each other for ever")
    rep.floor("order", len(E), 30, "ordered pairs of locks per thread, searched for circles over two and three threads")
    if not bad:
        rep.ok("order", "no circular wait among %d ordered pairs of locks" % len(E))


def waits(rep, M):
    """blocking sends, receives and joins with locks held"""
    ends = {"send": "recv", "recv": "send"}
    n = 0
    for k in M.T:
        for p, a in M.acq[k]:
            if a.mode == "wait":
                n += 1
        done = set()
        for p, h, a, line in M.edges[k]:
            if a.mode != "wait" or h.mode == "wait":
                continue
            kind, what = a.ty.split(" ", 1)
            if kind == "join":
                peers = [a.org[1]] if a.org and a.org[0] == "thread" and a.org[1] in M.T else [x for x in M.T if x != k]
            else:
                peers = [x for x in M.others(k) if any(b.mode == "wait" and b.ty == ends[kind] + " " + what for _, b in M.acq[x])]
            for t in peers:
                for p2, b in M.acq[t]:
                    if b.mode == "wait":
                        continue
                    ids = M.ids(p, h) & M.ids(p2, b)
                    if not ids:
                        continue
                    if a.ty in M.split and (len(M.ids(p, h)) > 1 or len(M.ids(p2, b)) > 1):
                        continue
                    why = M.conflict(ids, h.mode, b.mode, k, t)
                    key = "%s/%s/%s" % (a.ty, "|".join(sorted(ids)), h.where())
                    if key in done:
                        continue
                    if why:
                        done.add(key)
                        rep.bad("wait", key, "%s waits at %s (%s) with the lock of %s held %s since %s, which %s needs (%s) at %s before it can go on%s" % (name(k), a.at(), a.ty, "/".join(sorted(ids)), mode(h), h.at(), name(t), mode(b), b.at(), "" if why == "exclusive" else "; " + why))
            rep.ok("wait", "%s: %s held across %s at %s" % (p, h.ty, a.ty, line))
    rep.floor("wait", n, 4, "blocking sends, receives and joins")
