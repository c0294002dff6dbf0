"""C24: the server hands every message to every client, once, in order, whole."""
import adt
import loops
import partial
import q
import rank
from c22 import char_of
from vg import V, kids, show

LEVEL = "other"
RULE = ("Publishing: a message is added at the end of the backlog under the number the counter has, and the counter is moved on by one, both under one lock; the backlog is only ever cut to its newest messages, and is after each publishing. "
        "Every line the facade returns and every answer is published. A connection starts at the counter, forwards each line it receives, takes just the messages with a number >= its own, moves its number past each taken, and writes all taken in order, whole, one per line.")
ASSUME = ["async_std streams, mpsc channels and mutexes behave as documented", "what a client which never sends a line again gets is not claimed (messages are handed out when a line arrives)"]
SRV = "NarServer::"
RUN = SRV + "run"
FAC = "NarInputFacade::input"
GLOBAL = SRV + "Global"
MAXBACK = 4096


def fields(c):
    """(backlog, counter): names of the fields of the shared state"""
    a = c.adts.get(GLOBAL)
    arr = cnt = None
    for v in (a or {}).get("variants", []):
        for f in v["fields"]:
            n, t = (f["n"], f["t"]) if isinstance(f, dict) else (f[0], f[1])
            if "Vec" in t:
                arr = n
            elif t in ("i64", "u64", "usize", "i32", "u32"):
                cnt = n
    return arr, cnt


def is_lock(e):
    return e.kind == "call" and e.name in ("Mutex::lock", "RwLock::write", "RwLock::read")


def target(e):
    return e.extra if isinstance(e.extra, V) else e.args[0]


def named(v, f):
    return isinstance(v, V) and v.op == "field" and str(v.a[1]) == f


def walk(g, start, good, stops, ok=lambda f, p: False):
    """line of a stop reached from behind node start without passing good or an edge about which a fact is ok"""
    todo, seen = [start], set()
    first = True
    while todo:
        u = todo.pop()
        if not first:
            if u in seen or u in good:
                continue
            seen.add(u)
            if u in stops:
                return g.nodes[u].line or 1
        first = False
        for x, lab in g.nodes[u].succ:
            fs = g.edge_facts(g.nodes[u], lab)
            if fs is None or any(ok(f, p) for f, p in fs) or not g.nodes[x].facts:
                continue
            todo.append(x)
    return None


def cut_of(v, arr):
    """v: the newest messages of the backlog -> their number, or None"""
    if v.op == "call" and v.a[0] in ("slice::to_vec", "Vec::from", "Iterator::collect"):
        v = v.a[1]
    if v.op == "call" and v.a[0] == "Vec::split_off":
        return back(v.a[2], v.a[1]) if named(v.a[1], arr) else None
    if v.op == "call" and v.a[0] == "Iterator::skip":
        return back(v.a[2], v.a[1]) if named(loops.whole(v.a[1]) or v.a[1], arr) else None
    if v.op == "idx" and v.a[1].op == "agg" and v.a[1].a[0].endswith("RangeFrom") and named(v.a[0], arr):
        return back(v.a[1].a[3], v.a[0])
    return None


def back(v, coll):
    """v = len(coll) - n -> n"""
    if v.op == "bin" and v.a[0].startswith("Sub") and partial.len_of(v.a[1], coll) or v.op == "call" and v.a[0].endswith("saturating_sub") and partial.len_of(v.a[1], coll):
        return partial.num(v.a[2])
    return None


def cuts(rep, g, name, arr):
    """[(node, number kept)] and everything else done to the backlog"""
    out = []
    for n in g.nodes:
        for e in n.events:
            if not n.facts:
                continue
            if e.kind in ("lwrite", "write") and named(target(e), arr):
                k = cut_of(e.val, arr) if isinstance(e.val, V) else None
                if e.val is not None and named(e.val, arr):
                    continue
                rep.check(k is not None and 1 <= k <= MAXBACK, "newest", "cut", "%s:%s: the backlog becomes %s, not its newest messages" % (name, e.line, show(e.val, 5) if isinstance(e.val, V) else e.val))
                if k is not None:
                    out.append((n.id, k))
            elif e.kind == "call" and e.args and named(e.args[0], arr):
                m = e.name.split("::")[-1]
                if m == "drain":
                    r = e.args[1]
                    fs = dict(zip(r.a[2], r.a[3:])) if r.op == "agg" else {}
                    ok = "end" in fs and ("start" not in fs or partial.num(fs["start"]) == 0) and not r.a[0].endswith("Inclusive")
                    k = back(fs["end"], e.args[0]) if ok else None
                    ok = ok and (k is None or k >= 1)
                    rep.check(ok, "newest", "cut", "%s:%s: the messages %s are dropped, not the oldest" % (name, e.line, show(r, 4)))
                    if ok:
                        out.append((n.id, k or MAXBACK))
                elif m in ("remove", "swap_remove"):
                    ok = m == "remove" and partial.num(e.args[1]) == 0
                    rep.check(ok, "newest", "cut", "%s:%s: %s drops a message which isn't the oldest, or changes the order" % (name, e.line, m))
                    if ok:
                        out.append((n.id, MAXBACK))
                elif m == "pop_front":
                    rep.ok("newest", "cut")
                    out.append((n.id, MAXBACK))
                elif m in ("truncate", "pop", "clear", "retain", "insert", "reverse", "sort", "sort_by", "sort_by_key", "dedup", "swap", "pop_back", "push_front"):
                    rep.bad("newest", m, "%s:%s: %s drops new messages or changes their order" % (name, e.line, m))
    return out


def publish(rep, g, name, arr, cnt):
    """-> [(push event, message)]"""
    out = []
    cs = cuts(rep, g, name, arr)
    incs = {}
    for n in g.nodes:
        for e in n.events:
            if e.kind in ("lwrite", "write") and named(target(e), cnt) and n.facts:
                v = e.val
                ok = v.op == "bin" and v.a[0].startswith("Add") and any(partial.num(x) == 1 for x in kids(v)) and any(named(x, cnt) for x in kids(v))
                rep.check(ok, "publish", "counter", "%s:%s: the counter becomes %s" % (name, e.line, show(v, 4)))
                incs[n.id] = e
    pushes = {n.id: e for n in g.nodes for e in n.events if n.facts and e.kind == "call" and e.name in ("Vec::push", "VecDeque::push_back") and named(e.args[0], arr)}
    locks = {n.id for n in g.nodes for e in n.events if is_lock(e)}
    ret = {n.id for n in g.nodes if n.kind == "return" or n in g.root.retnodes} | {r.id for r in g.root.retnodes}
    heads = set(g.loops)
    for nid, e in pushes.items():
        where = "%s:%s" % (name, e.line)
        m = e.args[1]
        if not rep.check(m.op == "agg" and len(m.a) == 5, "publish", "message", "%s: what is added to the backlog is %s" % (where, show(m, 4))):
            continue
        out.append((e, m.a[4]))
        rep.check(named(m.a[3], cnt), "publish", "number", "%s: the number of the message is %s, not the counter's" % (where, show(m.a[3], 4)))
        # the counter is moved on, under the same lock
        p = walk(g, nid, set(incs), (locks | ret | set(pushes)) - set(incs))
        before = None
        if p is not None:
            # or just before
            for i in incs:
                x = walk(g, i, set(pushes), (locks | ret) | set(incs))
                if x is None:
                    before = i
            p = None if before is not None and walk(g, g.order[0], {before}, {nid}) is None else p
        rep.check(p is None, "publish", "moved", "%s: the counter isn't moved on before line %s, under the same lock: two messages get one number" % (where, p))
        for i, ie in incs.items():
            if i == before:
                continue
            p = walk(g, i, set(pushes), {x for x in incs}, )
            rep.check(p is None, "publish", "once", "%s: the counter is moved on more than once for a message" % where)
        # number read and used under one lock
        inl = [h for h, b in g.loops.items() if nid in b]
        h = min(inl, key=lambda h: len(g.loops[h])) if inl else None
        n2 = sum(1 for l in locks if (h is None or l in g.loops[h]) and walk(g, l, set(), {nid}) is not None and any(walk(g, l, set(), {k}) is not None for k in locks if k != l and (h is None or k in g.loops[h])))
        rep.check(n2 == 0, "publish", "lock", "%s: the number of a message can be read under another lock than the one under which it is used" % where)
        # the backlog is cut
        lim = {x for x, k in cs}
        fits = lambda f, pol: f.op == "bin" and f.a[0] in ("Lt", "Le") and (
            not pol and partial.num(f.a[1]) is not None and len_like(f.a[2], arr) and partial.num(f.a[1]) <= MAXBACK
            or pol and partial.num(f.a[2]) is not None and len_like(f.a[1], arr) and partial.num(f.a[2]) <= MAXBACK)
        p = walk(g, nid, lim, ret | locks | {x for x in heads if h is not None and x == h} | {nid}, fits)
        rep.check(p is None, "newest", "limit", "%s: the backlog isn't limited after a message was added" % where)
    return out


def len_like(v, arr):
    return v.op in ("len", "call") and any(named(x, arr) for x in q.subs(v)) and (v.op == "len" or v.a[0].endswith("::len"))


def server(rep, arr, cnt):
    g = rep.graph(RUN, atoms=[FAC, "Nar::createNar", SRV + "acceptLoop"], spawn_inline=True)
    calls = [e for n in g.nodes for e in n.events if e.kind == "call" and e.name == FAC and n.facts]
    rep.floor("lines", len(calls), 1, "calls of the facade in the server")
    pub = publish(rep, g, RUN, arr, cnt)
    for e in calls:
        where = "%s:%s" % (RUN, e.line)
        src = e.args[1]
        rep.check(any(x.op == "call" and x.a[0].startswith("Receiver::") for x in q.subs(src)), "lines", "received", "%s: the facade isn't given what was received, but %s" % (where, show(src, 4)))
        rep.check(src.op in ("okval", "vfield") or src.op == "elem", "lines", "unchanged", "%s: the facade is given %s, not the line as received" % (where, show(src, 4)))
        # every line is published
        outer = [l for l in loops.loops(g) if e.node.id in l.body]
        if rep.check(bool(outer), "lines", "goes-on", "%s: the server doesn't go on after a line" % where):
            l = max(outer, key=lambda l: len(l.body))
            for u, s, ds in l.exits:
                # the end of the channel, or a panic
                if not any(r.id == s or reaches(g, s, {r.id for r in g.root.retnodes}) for r in g.root.retnodes):
                    continue
                fs = [fp for x, lab in g.nodes[u].succ if x == s for fp in g.edge_facts(g.nodes[u], lab) or []]
                ok = any(fa.op in ("isok", "isv") and fa.a[0].op == "call" and fa.a[0].a[0].startswith("Receiver::") or is_quit(fa, e) for fa, p in fs)
                rep.check(ok, "lines", "goes-on", "%s: the server stops at line %s" % (where, g.nodes[u].line))
        inner = [l for l in loops.loops(g) if any(pe.node.id in l.own for pe, m in pub) and any(loops.whole(x) is not None and loops.whole(x) is e.val for x in l.sources())]
        cand = [pe for pe, m in pub if any(x is e.val for x in q.subs(m))]
        if not rep.check(bool(cand), "lines", "published", "%s: the lines returned by the facade aren't published" % where):
            continue
        if rep.check(bool(inner), "lines", "all", "%s: not all lines returned by the facade are published" % where):
            for l in inner:
                ns = {pe.node.id for pe, m in pub if pe.node.id in l.own}
                p = round_without(g, l, ns)
                rep.check(p is None, "lines", "each", "%s: a line returned can be passed by" % where)
                rep.check(not l.early(), "lines", "each", "%s: publishing can end before the last line" % where)
                for pe, m in pub:
                    if pe.node.id in l.own:
                        rep.check(m.op == "elem" and loops.whole(m.a[0]) is e.val, "lines", "same", "%s: what is published is %s, not the line" % (where, show(m, 4)))
    # answers
    reg = [e for n in g.nodes for e in n.events if e.kind == "call" and e.name == "Vec::push" and named(e.args[0], "globalQaHandlers")]
    rep.check(any(x.op == "agg" and str(x.a[0]).startswith(SRV) for e in reg for x in q.subs(e.args[1])), "answers", "registered", "%s: the handler which publishes answers isn't registered" % RUN)
    if reg and calls:
        rep.check(all(walk(g, g.order[0], {r.node.id}, {c.node.id}) is None for r in reg for c in calls), "answers", "first", "%s: lines are handled before the handler for answers is registered" % RUN)
    shared = {x.id for e in reg for x in q.subs(e.args[1]) if x.op == "agg" and x.a[0] == GLOBAL}
    for pe, m in pub:
        roots = {x.id for x in q.subs(pe.args[0]) if x.op == "agg" and x.a[0] == GLOBAL}
        rep.check(not roots or not shared or roots == shared, "answers", "one", "%s: answers and lines are published to different backlogs" % RUN)
    acc = [e for n in g.nodes for e in n.events if e.kind == "call" and (e.name == SRV + "acceptLoop" or e.name.endswith("block_on"))]
    for e in acc:
        roots = {x.id for a in e.args if isinstance(a, V) for x in q.subs(a) if x.op == "agg" and x.a[0] == GLOBAL}
        rep.check(not roots or not shared or roots == shared, "answers", "one", "%s: connections are given another backlog than the one which is published to" % RUN)


def is_quit(f, e):
    """the facade said to quit"""
    return f is e.args[2] or f.op == "out" and f.a[0] is e.val


def reaches(g, s, t):
    return walk(g, s, set(), t) is not None or s in t


def round_without(g, l, ns):
    """a way round the loop which passes by ns"""
    todo, seen = [x for x, lab in g.nodes[l.head].succ if x in l.body], set()
    if l.head in ns:
        return None
    while todo:
        u = todo.pop()
        if u in seen or u in ns:
            continue
        seen.add(u)
        if u == l.head:
            return u
        for x, lab in g.nodes[u].succ:
            if x in l.body and g.edge_facts(g.nodes[u], lab) is not None and g.nodes[x].facts:
                todo.append(x)
    return None


def answers(rep, arr, cnt):
    n = 0
    for i in rep.c.impls:
        if i["trait"].endswith("QHandler") and i["self"].startswith(SRV):
            for nm, f in i["items"]:
                if nm == "answer" and f in rep.c.fns:
                    n += 1
                    g = rep.graph(f, atoms=["Term::convTermToStr", "NarSentence::convSentenceTermPunctToStr"])
                    pub = publish(rep, g, f, arr, cnt)
                    qn, an = adt.param(g, 2), adt.param(g, 3)
                    ns = {e.node.id for e, m in pub}
                    if not rep.check(bool(pub), "answers", "published", "%s: answers aren't published" % f):
                        continue
                    p = walk(g, g.order[0], ns, {r.id for r in g.root.retnodes})
                    rep.check(p is None, "answers", "each", "%s: an answer can be left out" % f)
                    for e, m in pub:
                        rep.check(any(x is an for x in q.subs(m)), "answers", "text", "%s: the text published doesn't have the answer" % f)
    rep.floor("answers", n, 1, "handlers for answers in the server")


def connection(rep, arr, cnt):
    n = 0
    cand = [f for f in sorted(rep.c.fns) if f.startswith(SRV) and f != RUN and not f.startswith(RUN + "::")]
    has = {}
    for f in cand:
        g = rep.graph(f, atoms=[])
        if any(e.kind == "call" and e.name.endswith("Sender::send") for m in g.nodes for e in m.events):
            has[f] = g
    for f, g in has.items():
        # the outermost ones
        if any(h != f and f in q.calls_of(rep.c, h) and not f.startswith(h + "::") for h in has):
            continue
        n += 1
        one(rep, f, g, arr, cnt)
    rep.floor("connection", n, 1, "handlers of connections")


def one(rep, f, g, arr, cnt):
    evs = [(n, e) for n in g.nodes if n.facts for e in n.events if e.kind == "call"]
    sends = [(n, e) for n, e in evs if e.name.endswith("Sender::send")]
    if not rep.check(bool(sends), "connection", "send", "%s: lines received aren't forwarded" % f):
        return
    recv = [(n, e) for n, e in evs if e.name == "Future::poll" and any(x.op == "call" and x.a[0].endswith("::lines") or x.op == "next" for x in q.subs(e.args[0]))]
    ls = loops.loops(g)
    outer = [l for l in ls if sends[0][0].id in l.body]
    if not rep.check(bool(outer), "connection", "loop", "%s: only one line is forwarded" % f):
        return
    outer = max(outer, key=lambda l: len(l.body))
    ns = {n.id for n, e in sends}
    # each line received is forwarded
    for n, e in recv:
        if n.id not in outer.body:
            continue
        for u in outer.body:
            for x, lab in g.nodes[u].succ:
                fs = g.edge_facts(g.nodes[u], lab) or []
                if any(fa.op == "isv" and fa.a[1] == "Some" and pol and any(y is e.val for y in q.subs(fa)) for fa, pol in fs):
                    err = lambda fa, pol: (fa.op == "isok" and not pol or fa.op == "isv" and fa.a[1] in ("Err", "Break") and pol or fa.op == "isv" and fa.a[1] in ("Ok", "Continue") and not pol) and any(y is e.val for y in q.subs(fa))
                    p = None if x in ns else walk(g, x, ns, {outer.head} | {r.id for r in g.root.retnodes}, err)
                    rep.check(p is None, "connection", "forwarded", "%s: a line received can be passed by (line %s)" % (f, p))
    for n, e in sends:
        v = e.args[1]
        rep.check(v.op in ("okval", "vfield") and any(x is r.val for _, r in recv for x in q.subs(v)), "connection", "unchanged", "%s:%s: what is forwarded is %s, not the line received" % (f, e.line, show(v, 4)))
    # messages taken
    takes = [l for l in ls if any(named(loops.whole(unfilter(x)) or x, arr) for x in l.sources())]
    filt = [v for v in list(g.pool.t.values()) if v.op == "filtered" and named(loops.whole(v.a[0]) or v.a[0], arr)]
    if not rep.check(bool(takes) or bool(filt), "taken", "loop", "%s: not all of the backlog is looked through" % f):
        return
    mine = [v for v in list(g.pool.t.values()) if v.op == "phi" and v.id in g.phis and counterlike(g, v, cnt)]
    rep.floor("taken", len(mine), 1, "own number of the connection")
    for l in takes:
        src = [x for x in l.sources()][0]
        el = lambda v: v.op == "field" and str(v.a[1]) == "0" and v.a[0].op == "elem" and any(v.a[0].a[0] is s for s in l.sources())
        rep.check(not l.early(), "taken", "early", "%s: looking for messages can end before the last one" % f)
        puts = [(n, e) for n, e in evs if n.id in l.own and e.name in ("Vec::push", "VecDeque::push_back") and e.args[1].op == "field" and e.args[1].a[0].op == "elem"]
        if not rep.check(bool(puts), "taken", "kept", "%s: messages of the backlog aren't taken" % f):
            continue
        isnew = lambda fa: test(fa, el, mine)
        for n, e in puts:
            where = "%s:%s" % (f, e.line)
            rep.check(str(e.args[1].a[1]) == "1", "taken", "text", "%s: what is taken isn't the text of the message" % where)
            for d in q._fs(g, g.IN.get(n.id) or []):
                st = [test(fa, el, mine) for fa, pol in d if pol] + [neg(test(fa, el, mine)) for fa, pol in d if not pol]
                st = [x for x in st if x]
                rep.check("ge" in st, "taken", "new", "%s: a message is taken %s" % (where, "also if it was taken before" if not st else "if its number is %s the own" % st))
                rep.check(not (set(st) - {"ge"}), "taken", "new-all", "%s: a message is taken only if its number is %s the own" % (where, st))
            # each new one
            p = None
            todo, seen = [x for x, lab in g.nodes[l.head].succ if x in l.body], set()
            while todo:
                u = todo.pop()
                if u in seen or u == n.id:
                    continue
                seen.add(u)
                if u == l.head:
                    p = u
                    break
                for x, lab in g.nodes[u].succ:
                    fs = g.edge_facts(g.nodes[u], lab)
                    if fs is None or x not in l.body:
                        continue
                    if any((test(fa, el, mine) if pol else neg(test(fa, el, mine))) == "lt" for fa, pol in fs):
                        continue
                    todo.append(x)
            rep.check(p is None, "taken", "each", "%s: a new message can be left out" % where)
            # the own number moves past it
            for v in mine:
                for pr, w in g.phis[v.id]:
                    if pr in l.body and v.a[-1][1] in l.body and w is not v and w.op != "phi":
                        ok = w.op == "bin" and w.a[0].startswith("Add") and any(el(x) for x in kids(w)) and any(partial.num(x) == 1 for x in kids(w)) or named(w, cnt)
                        rep.check(ok, "taken", "moved", "%s: the own number becomes %s" % (where, show(w, 4)))
            moved = [v for v in mine if any(pr in outer.body and w is not v for pr, w in g.phis[v.id])]
            rep.check(bool(moved), "taken", "moved", "%s: the own number isn't moved past a message taken: it is sent again" % where)
    colls = [e.args[0] for l in takes for n, e in evs if n.id in l.own and e.name in ("Vec::push", "VecDeque::push_back")]
    for v in filt:
        el = lambda w: w.op == "field" and str(w.a[1]) == "0" and w.a[0] is v.a[1]
        k = test(v.a[2], el, mine)
        where = f
        rep.check(k == "ge", "taken", "new", "%s: messages are taken %s" % (where, "if their number is %s the own" % k if k else "under another condition"))
        moved = [w for m in mine for pr, w in g.phis[m.id] if pr in outer.body and w is not m and w.op != "phi"]
        rep.check(bool(moved) and all(named(w, cnt) or w.op == "bin" for w in moved), "taken", "moved", "%s: the own number isn't moved past the messages taken" % where)
        if any(named(w, cnt) for w in moved):
            rep.check(len([1 for n in g.nodes if n.id in outer.body and n.facts for e in n.events if is_lock(e)]) == 1, "taken", "lock", "%s: the own number is moved under another lock than the one under which messages were taken" % where)
        for n, e in evs:
            if e.name in q.EXTEND or e.name.endswith("::extend"):
                w = e.args[1]
                if any(x is v for x in q.subs(w)):
                    rep.check(w.op == "mapped" and w.a[0] is v and w.a[2].op == "field" and str(w.a[2].a[1]) == "1" and w.a[2].a[0].op == "elem", "taken", "text", "%s: what is taken isn't the text of each new message" % where)
                    colls.append(e.args[0])
            if e.name in ("Vec::push", "VecDeque::push_back") and e.args[1].op == "field" and e.args[1].a[0].op == "elem" and e.args[1].a[0] is v.a[1]:
                fl = [l for l in ls if n.id in l.own and any(x is v for nx in l.nexts for x in q.subs(nx.args[0]))]
                for l in fl:
                    rep.check(str(e.args[1].a[1]) == "1" and round_without(g, l, {n.id}) is None and not l.early(), "taken", "each", "%s: a new message can be left out" % where)
                colls.append(e.args[0])
        colls += [w for w in list(g.pool.t.values()) if w.op == "mapped" and w.a[0] is v and w.a[2].op == "field" and str(w.a[2].a[1]) == "1"]
    # start
    for v in mine:
        for pr, w in g.phis[v.id]:
            if pr not in outer.body and v.a[-1][1] == outer.head:
                rep.check(named(w, cnt), "taken", "start", "%s: a connection starts at number %s, not at the counter" % (f, show(w, 4)))
    # written
    writes = [(n, e) for n, e in evs if e.name.startswith(("WriteExt::", "AsyncWriteExt::", "Write::")) and e.name.split("::")[-1] in ("write", "write_all", "write_fmt")]
    if not rep.check(bool(writes), "written", "write", "%s: messages aren't written" % f):
        return
    wl = [l for l in ls if any((loops.whole(x) or x) is c for x in l.sources() for c in colls) or any(nx.args[0] is c for nx in l.nexts for c in colls)]
    if not rep.check(bool(wl), "written", "all", "%s: not all messages taken are written" % f):
        return
    for l in wl:
        own = [(n, e) for n, e in writes if n.id in l.body]
        if not own:
            continue
        p = round_without(g, l, {n.id for n, e in own})
        rep.check(p is None, "written", "each", "%s: a message taken can be left out" % f)
        early = [x for x in l.early() if not any(g.nodes[x[1]].kind is None for _ in (0,)) and not excused(g, x[2], own)]
        rep.check(not early, "written", "each", "%s: writing can end before the last message" % f)
        for n, e in own:
            rep.check(e.name.split("::")[-1] != "write", "written", "whole", "%s:%s: write may take only a part of a message" % (f, e.line))
        texts = [e.args[1] for n, e in own if len(e.args) > 1]
        ends = any(ends_nl(x) for x in texts)
        rep.check(ends, "written", "lines", "%s: messages aren't ended by a line break" % f)
        rep.check(any(x.op == "elem" for t in texts for x in q.subs(t)), "written", "text", "%s: what is written isn't the message" % f)
        # flushed before the next line is waited for
        fl = {n.id for n, e in evs if e.name.split("::")[-1] == "flush"}
        for n, e in own:
            p = walk(g, n.id, fl, {x.id for x, r in recv} | {outer.head})
            rep.check(p is None, "written", "flushed", "%s:%s: a message stays in the buffer of the writer" % (f, e.line))


def excused(g, d, own):
    """the message couldn't be written"""
    return any((f.op == "isok" and not p or f.op == "isv" and f.a[1] in ("Err", "Break") and p or f.op == "isv" and f.a[1] in ("Ok", "Continue") and not p) and any(x is e.val for _, e in own for x in q.subs(f)) for f, p in d)


def ends_nl(v):
    for x in q.subs(v):
        if x.op == "const" and isinstance(x.a[1], str) and x.a[1].endswith("\n"):
            return True
        if x.op == "const" and isinstance(x.a[1], (tuple, list)) and 10 in x.a[1]:
            return True
    return False


def unfilter(x):
    while x.op == "filtered":
        x = x.a[0]
    return x


def counterlike(g, v, cnt):
    """a variable which starts as the counter"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for _, w in g.phis.get(x.id, ()):
            if named(w, cnt):
                return True
            if w.op == "phi":
                todo.append(w)
            if w.op == "bin" and any(y.op == "field" and str(y.a[1]) == "0" and y.a[0].op == "elem" for y in kids(w)):
                return True
    return False


def test(f, el, mine):
    """"ge" / "gt" / "lt" / "le" / "eq" / "ne": what the fact says of a message's number against the own"""
    if f.op != "bin" or f.a[0] not in ("Lt", "Le", "Eq", "Ne"):
        return None
    a, b = f.a[1], f.a[2]
    if el(a) and any(b is m for m in mine):
        return {"Lt": "lt", "Le": "le", "Eq": "eq", "Ne": "ne"}[f.a[0]]
    if el(b) and any(a is m for m in mine):
        return {"Lt": "gt", "Le": "ge", "Eq": "eq", "Ne": "ne"}[f.a[0]]
    return None


def neg(t):
    return {None: None, "ge": "lt", "lt": "ge", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}[t]


def check(rep):
    arr, cnt = fields(rep.c)
    if not rep.check(arr is not None and cnt is not None and RUN in rep.c.fns, "anchor", "server", "the shared state of the server isn't there"):
        return
    server(rep, arr, cnt)
    answers(rep, arr, cnt)
    connection(rep, arr, cnt)
