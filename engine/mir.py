"""Loading and pretty-printing of the MIR dump written by /verif/driver."""
import json


class Fn:
    __slots__ = ("path", "d", "locals", "blocks", "argc", "file", "line", "kind",
                 "parent", "promoted", "derived", "trait", "self_ty", "public", "name")

    def __init__(self, d):
        self.d = d
        self.path = d["path"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.argc = d["argc"]
        self.file = d.get("file", "?")
        self.line = d.get("line", 0)
        self.kind = d.get("kind")
        self.parent = d.get("parent")
        self.promoted = [Fn(dict(p, path=self.path + "::promoted%d" % i, file=self.file))
                         for i, p in enumerate(d.get("promoted", []))]
        self.derived = d.get("derived", False)
        self.trait = d.get("trait")
        self.self_ty = d.get("self_ty")
        self.public = d.get("pub", False)
        self.name = d.get("name")

    def __repr__(self):
        return "Fn(%s)" % self.path


class Crate:
    def __init__(self, fname):
        d = json.load(open(fname))
        self.name = d["crate"]
        self.fns = {}
        for f in d["fns"]:
            fn = Fn(f)
            p = fn.path
            n = 1
            while p in self.fns:
                n += 1
                p = "%s#%d" % (fn.path, n)
            fn.path = p
            self.fns[p] = fn
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]

    def variants(self, adt):
        return [v["name"] for v in self.adts[adt]["variants"]]

    def variant_fields(self, adt, variant):
        for v in self.adts[adt]["variants"]:
            if v["name"] == variant:
                return [(f[0], f[1]) for f in v["fields"]]
        raise KeyError((adt, variant))

    def impls_of(self, trait, method):
        out = []
        for i in self.impls:
            if i["trait"] == trait:
                for n, p in i["items"]:
                    if n == method:
                        out.append(p)
        return out


def callee(t):
    """resolved callee path of a call terminator, or None for an indirect call"""
    fn = t["fn"].get("fn")
    if fn is None:
        return None
    return fn.get("res") or fn["path"]


def pplace(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*":
            s = "(*%s)" % s
        elif e == "?":
            s += ".?"
        elif "f" in e:
            s += "." + e["f"]
        elif "x" in e:
            s += "[_%d]" % e["x"]
        elif "ci" in e:
            s += "[%s%d]" % ("-" if e["fe"] else "", e["ci"])
        elif "ss" in e:
            s += "[%s]" % (e["ss"],)
        elif "v" in e:
            s += " as " + e["v"]
    return s


def pop(o):
    k = o["k"]
    if k in ("copy", "move"):
        return k + " " + pplace(o["pl"])
    if k == "const":
        for x in ("val", "str", "closure", "promoted", "static", "fnptr", "bytes", "ind"):
            if x in o:
                return "const %s=%r" % (x, o[x])
        if "fn" in o:
            return "fn " + (o["fn"].get("res") or o["fn"]["path"])
        return "const " + o["t"]
    return k


def prv(r):
    k = r["k"]
    if k == "use":
        return pop(r["o"])
    if k in ("ref", "raw"):
        return "&%s %s" % (r.get("m", "raw"), pplace(r["pl"]))
    if k == "cast":
        return "%s as %s (%s)" % (pop(r["o"]), r["t"], r["ck"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], pop(r["a"]), pop(r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], pop(r["o"]))
    if k == "discr":
        return "discr(%s)" % pplace(r["pl"])
    if k == "agg":
        n = r["ak"]
        if n == "adt":
            n = r["adt"] + "::" + r["v"]
        elif n == "closure":
            n = "closure " + r["def"]
        return "%s{%s}" % (n, ", ".join(pop(o) for o in r["fs"]))
    return json.dumps(r)[:200]


def pretty(fn, cleanup=False):
    out = ["fn %s (argc %d) %s:%s" % (fn.path, fn.argc, fn.file, fn.line)]
    for i, l in enumerate(fn.locals):
        out.append("  let _%d: %s  %s" % (i, l["t"], l.get("n", "")))
    for i, b in enumerate(fn.blocks):
        if b["c"] and not cleanup:
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s["k"] == "=":
                out.append("    %s = %s   // %s" % (pplace(s["pl"]), prv(s["rv"]), s["line"]))
            else:
                out.append("    %s" % (s,))
        t = b["t"]
        k = t["k"]
        if k == "call":
            out.append("    %s = %s(%s) -> %s uw %s // %s" % (
                pplace(t["dst"]), callee(t) or pop(t["fn"]), ", ".join(pop(a) for a in t["args"]), t["to"], t["uw"], t["line"]))
        elif k == "switch":
            out.append("    switch %s %s else %s" % (pop(t["o"]), t["ts"], t["else"]))
        elif k == "drop":
            out.append("    drop %s -> %s" % (pplace(t["pl"]), t["to"]))
        elif k == "assert":
            out.append("    assert %s==%s [%s] -> %s" % (pop(t["o"]), t["exp"], t["msg"], t["to"]))
        else:
            out.append("    %s %s" % (k, t.get("to", "")))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for n in sys.argv[2:]:
        for p, f in c.fns.items():
            if p.endswith(n):
                print(pretty(f))
