"""Running a check: building the MIR dump from /repo's working tree, collecting obligations and
violations, known findings, evidence."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
DRIVER_SRC = os.path.join(VERIF, "driver")
DRIVER = os.path.join(BUILD, "driver-target", "release", "vmir")

sys.path.insert(0, HERE)
import mir  # noqa: E402
import vg  # noqa: E402


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=_env(), text=True).strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver-target")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"],
                       cwd=DRIVER_SRC, env=e, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise BuildError("driver build failed:\n" + r.stderr[-4000:])


def dump_mir():
    """run the compiler front end on /repo's current tree and return the directory with the dumps"""
    out = os.path.join(BUILD, "mir")
    tgt = os.path.join(BUILD, "repo-target")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # cargo must not consider the crate fresh: the wrapper would not run
    for root, dirs, files in os.walk(tgt):
        for n in list(dirs):
            if n == "nar20_1" or n.startswith("nar20_1-"):
                shutil.rmtree(os.path.join(root, n), ignore_errors=True)
                dirs.remove(n)
        for n in files:
            if n.startswith(("libnar20_1", "nar20_1")):
                os.unlink(os.path.join(root, n))
    e = _env()
    e["CARGO_TARGET_DIR"] = tgt
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["VMIR_OUT_DIR"] = out
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet", "--workspace", "--lib", "--bins"],
                       cwd=REPO, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("cargo check of %s failed:\n%s" % (REPO, r.stderr[-4000:]))
    f = os.path.join(out, "nar20_1.json")
    if not os.path.exists(f):
        raise BuildError("no MIR dump was produced")
    return out


class Crate(mir.Crate):
    def __init__(self, fname):
        mir.Crate.__init__(self, fname)
        self.local_traits = {f.trait for f in self.fns.values()
                             if f.trait and not f.trait.startswith(("core::", "alloc::", "std::"))}


def load():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        d = dump_mir()
        lib = Crate(os.path.join(d, "nar20_1.json"))
        b = os.path.join(d, "main_bin.json")
        binc = Crate(b) if os.path.exists(b) else None
    return lib, binc


class Report:
    """obligations (rule instances decided) and violations (stable key + text)"""

    def __init__(self, prop, crate, binc=None, thorough=False):
        self.prop = prop
        self.c = crate
        self.bin = binc
        self.thorough = thorough
        self.obl = []         # (rule, instance)
        self.viol = []        # (key, text)
        self.analysed = set()
        self.stats = {}
        self.assume = []
        self._graphs = {}

    # ---- recording
    def ok(self, rule, inst):
        self.obl.append((rule, str(inst), True))

    def bad(self, rule, key, text):
        self.obl.append((rule, str(key), False))
        self.viol.append(("%s:%s" % (rule, key), text))

    def check(self, cond, rule, key, text=""):
        if cond:
            self.ok(rule, key)
        else:
            self.bad(rule, key, text() if callable(text) else text)
        return cond

    def floor(self, rule, n, minimum, what):
        """a rule that matches fewer instances than were confirmed by reading must not pass silently"""
        self.check(n >= minimum, rule, "floor:" + what,
                   "only %d instance(s) of %s found, %d expected: the anchored mechanism is gone" % (n, what, minimum))

    def need(self, path):
        """anchor function"""
        f = self.c.fns.get(path)
        if f is None:
            self.bad("anchor", path, "anchored function %s does not exist any more" % path)
            raise Missing(path)
        self.analysed.add(path)
        return f

    def graph(self, entry, atoms=(), **kw):
        self.need(entry)
        key = (entry, tuple(sorted(atoms)), tuple(sorted((k, repr(v)) for k, v in kw.items() if k not in ("inline", "args"))))
        if key not in self._graphs or "inline" in kw or "args" in kw:
            g = vg.Graph(self.c, entry, atoms=atoms, **kw)
            for w in g.warnings:
                self.assume.append("%s: %s" % (entry, w))
            for i in g.insts:
                self.analysed.add(i.fn.path)
            self._graphs[key] = g
            self.stats["nodes"] = self.stats.get("nodes", 0) + len(g.nodes)
            self.stats["events"] = self.stats.get("events", 0) + sum(len(n.events) for n in g.nodes)
        return self._graphs[key]


class Missing(Exception):
    pass


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == prop}


def run(prop, fn, level, rule_text, assumptions, thorough=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        lib, binc = load()
    except BuildError as e:
        print("check %s: cannot analyse: %s" % (prop, e))
        return 2
    rep = Report(prop, lib, binc, thorough)
    try:
        fn(rep)
    except Missing:
        pass
    except Exception:
        tb = traceback.format_exc()
        rep.bad("analysis", "exception", "the analysis met a construct it cannot interpret (fails closed):\n" + tb)
    known = known_findings(prop)
    new = []
    seen_known = set()
    done = set()
    for key, text in rep.viol:
        if key in done:
            continue
        done.add(key)
        if key in known:
            seen_known.add(key)
        else:
            new.append((key, text))
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rules = {}
    for r, i, okk in rep.obl:
        rules.setdefault(r, [0, 0])
        rules[r][0] += 1
        rules[r][1] += 1 if okk else 0
    ev = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": level,
        "coverage": {
            "explanation": rule_text,
            "obligations": len(rep.obl),
            "discharged": sum(1 for o in rep.obl if o[2]),
            "functions_analysed": len(rep.analysed),
            "functions": sorted(rep.analysed)[:400],
            "crate_functions": len(lib.fns),
            "cfg_nodes": rep.stats.get("nodes", 0),
            "value_events": rep.stats.get("events", 0),
            "rules": {k: {"instances": v[0], "held": v[1]} for k, v in sorted(rules.items())},
            "samples": ["%s: %s" % (r, i) for r, i, _ in rep.obl[:40]],
            "checker_cmd": "./check.sh %s" % prop,
            "trusted_base": ["rustc nightly front end (MIR)", "/verif/driver", "/verif/engine", "/verif/checks"],
        },
        "assumptions": list(assumptions) + rep.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions analysed, %d rule instances, %d violated (%d known)" % (
        prop, len(rep.analysed), len(rep.obl), len(done), len(seen_known)))
    for r, v in sorted(rules.items()):
        print("  rule %-42s instances %4d  held %4d" % (r, v[0], v[1]))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    if new:
        rp = os.path.join(ev_dir, prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, t in new:
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in new:
            print("  [%s] %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
