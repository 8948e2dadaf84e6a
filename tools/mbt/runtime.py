"""Checks over spec/Runtime.tla and spec/Transforms.tla: the run-time registry (C10), histories of transforms (C11)."""
import gzip
import itertools
import json
import multiprocessing
import os
import subprocess
import tempfile

import core
from core import CORES, SEED, cfg_text, covh, read_lines, tlc, tlc_all

INV = ["OwnEntry", "Registered", "NothingLost", "SameIfFresh"]
BASE = dict(FILES={"a.js", "b.js"}, VERS={1, 2, 3}, CVS={"__coverage__"}, NREALM=1, MaxOps=4, MaxObj=4,
            OPS={"load", "bundle", "call", "wipe", "foreign"}, EMIT=True)
FAM = {
    "ra": dict(),
    "rb": dict(CVS={"__coverage__", "my_cov$"}, NREALM=2, MaxOps=3, VERS={1, 2}),
    "rc": dict(FILES={"a.js", "b.js", "c.js"}, VERS={1, 2}, MaxOps=4, OPS={"load", "call"}),
}
DEEP = {"rd": dict(MaxOps=5), "re": dict(FILES={"a.js", "b.js"}, VERS={1, 2}, MaxOps=6, OPS={"load", "call", "wipe"})}
SIM = {"xf": dict(FILES={"a.js", "b.js", "c.js"}, CVS={"__coverage__", "my_cov$"}, NREALM=2, MaxOps=12, MaxObj=8)}
FOREIGN = "/other/z.js"


def jobs(fam):
    return [dict(module="Runtime", cfg=cfg_text(dict(BASE, **dict(FAM, **DEEP)[fam]), INV, properties=["Keeps"]), name=fam)]


def source(f, v):
    """coverage data of versions 1 and 3 is the same"""
    head = "probe();\n"
    if v == 2:
        head += "0;\n"
    return head + "reg(function t() { return %d; });\n" % v


def codes(files, vers, cvs):
    keys = [(f, v, c) for f in files for v in vers for c in cvs]
    out = covh("instr", [{"src": source(f, v), "file": f, "mode": "script", "opts": {"coverageVariable": c}} for f, v, c in keys])
    for k, o in zip(keys, out):
        if "code" not in o:
            return None, "%s: %s" % (k, o)
    return {"%s|%d|%s" % k: o["code"] for k, o in zip(keys, out)}, None


def want(view):
    """the observation that a view stands for"""
    out = []
    for r in view:
        cv = {}
        for c, t in r.items():
            e = {}
            for f, (d, l, k) in (t["e"].items() if isinstance(t["e"], dict) else []):
                n = 4 if d == 2 else 3
                e[f] = {"path": f, "s": [l] * (n - 1) + [k], "f": [k], "map": n}
            if t["out"]:
                e[FOREIGN] = True
            cv[c] = e
        out.append(cv)
    return out


def got(ans):
    out = []
    for r in ans["realms"]:
        cv = {}
        for c, t in r["cv"].items():
            cv[c] = {} if t is None else {p: (x if isinstance(x, bool) else {k: x[k] for k in ("path", "s", "f", "map")}) for p, x in t.items()}
        out.append(cv)
    return out


def modes(h, i):
    loads = [f for o in h["ops"] if o["o"] in ("load", "bundle") for f in ([o["f"]] if o["o"] == "load" else [o["f"], o["g"]])]
    m = ["fn", "strict", "esm"][i % 3:i % 3 + 1]
    if len(loads) == len(set(loads)):
        m.append("script")
    return m


def work(job):
    meta, k, n, code, files, cvs, nrealm = job
    hs, todo = [], []
    with gzip.open(meta["file"], "rb") as f:
        for i, line in enumerate(f):
            if i % n == k:
                h = json.loads(json.loads(line)[1:])
                for m in modes(h, i // n):
                    hs.append(h)
                    todo.append({"ops": h["ops"], "mode": m})
    if not todo:
        return [], 0, None
    with tempfile.TemporaryDirectory(prefix="rt") as d:
        a, b = os.path.join(d, "q.json"), os.path.join(d, "a.ndjson")
        with open(a, "w") as f:
            json.dump({"codes": code, "cvs": cvs, "files": files, "nrealm": nrealm, "foreign": FOREIGN, "jobs": todo}, f)
        r = subprocess.run(["node", "--experimental-vm-modules", "--no-warnings", os.path.join(os.path.dirname(__file__), "rthost.js"), a, b],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise core.CheckError("rthost: " + r.stdout[-1000:])
        ans = [json.loads(x) for x in open(b)]
    out = []
    for h, t, a in zip(hs, todo, ans):
        v = None
        if "error" in a:
            v = {"kind": "run", "what": "running the instrumented files fails: " + a["error"]}
        else:
            g = got(a)
            if any(x["extra"] for x in a["realms"]):
                v = {"kind": "global", "what": "other globals are created: %s" % [x["extra"] for x in a["realms"]]}
            elif not all(p for x in a["realms"] for p in x["probes"]):
                v = {"kind": "probe", "what": "not registered when the file starts"}
            elif g != want(h["keep"]):
                v = {"kind": "reload" if g == want(h["again"]) else "table", "what": "wanted %s got %s" % (want(h["keep"]), g)}
        if v:
            v.update(ops=h["ops"], mode=t["mode"])
            if v["kind"] != "reload" or not any(x["kind"] == "reload" for x in out):
                if len(out) < 200:
                    out.append(v)
    return out, len(todo), json.dumps(todo[-1])


def registry(rep, metas, fam, consts):
    files, cvs = sorted(consts["FILES"]), sorted(consts["CVS"])
    code, err = codes(files, sorted(consts["VERS"]), cvs)
    if err:
        rep.violation({"what": "transform fails: " + err, "kind": "transform"})
        return
    todo = []
    for m in metas:
        rep.add(**({"states": m["states"], "transitions": m["states"]} if not m["cached"] else {"states_of_cached_model_runs": m["states"]}))
        n = max(1, min(CORES * 2, m["lines"] // 500)) if len(metas) == 1 else 1
        todo += [(m, k, n, code, files, cvs, consts["NREALM"]) for k in range(n)]
    total = 0
    with multiprocessing.Pool(CORES) as pool:
        for out, n, sample in pool.imap_unordered(work, todo, chunksize=1):
            total += n
            for v in out:
                rep.violation(v)
            if sample:
                rep.add(samples=[sample])
    rep.add(traces_validated_against_impl=total)
    rep.cov.setdefault("by_family", {})[fam] = {"histories": total, "model_states": sum(m["states"] for m in metas),
                                               "model_cached": all(m["cached"] for m in metas)}


# ------------------------------------------------------------------ C11
TBASE = dict(NREQ=9, NVAR=3, NWORK=1, MaxLen=3, OWN=True, EMIT=True)
TFAM = {"ta": dict(), "tb": dict(NREQ=6, NVAR=2, NWORK=3, MaxLen=3)}
# programs of a few letters that share positions with one another and differ in what is there
TFAM["td"] = dict(NREQ=32, NVAR=4, MaxLen=2)
TDEEP = {"tc": dict(MaxLen=4), "te": dict(NREQ=32, NVAR=4, MaxLen=3)}
PADDED = {"td", "te"}
PADS = ["", "\n", "\n\n\n", " \n\t\n  "]
BODIES = ["f;g", "f();\n", "a||b", "if(a);", "()=>1", "'x'", "/*istanbul ignore next*/f();", "/*Istanbul ignore next*/f();"]
TSIM = {"xt": dict(NREQ=24, NVAR=4, NWORK=4, MaxLen=16)}
TINV = ["Function", "Apart"]
SRC = [
    "var x = a && b || c; function f(p = 1) { if (p) return x; }",
    "/* istanbul ignore file */\nfoo();",
    "'use strict'; class A { m() { return a ? b : c; } get q() { return `x`; } }\nlabel: for (;;) { switch (a) { case 1: break label; } }",
    "",
    "/* istanbul ignore next */ function g() { a || b; }\nif (a) { b(); } else c = () => d ?? e;",
]
TSSRC = "namespace N { export const a = 1; function f() { return a || 2; } }\nexport class B { constructor(private x: number) {} }"


def requests(nreq, nvar, padded=False):
    """request q: file (q-1) div nvar, variant (q-1) mod nvar"""
    if padded:
        return [{"src": PADS[q % nvar] + BODIES[q // nvar % len(BODIES)], "file": "p%d.js" % (q // nvar % 3), "mode": "script", "opts": {"reportLogic": True}} for q in range(nreq)]
    names = ["a.js", "src/b.js", "a.jsx", "A.js", "b.js", "c.ts"]
    opts = [{"reportLogic": True, "coverageVariable": "cv"}, {}, {"ignoreClassMethods": ["m"], "reportLogic": True}, {"coverageVariable": "x.y", "compact": True}]
    out = []
    for q in range(nreq):
        i, v = divmod(q, nvar)
        n = names[i % len(names)]
        r = {"src": SRC[(i + 2 * v) % len(SRC)], "file": n, "mode": "script", "opts": dict(opts[v % len(opts)], debugInitialCoverageComment=True)}
        if n.endswith(".ts"):
            r.update(src=TSSRC if v % 2 == 0 else "export const z = a && b;", mode="ts-module")
        out.append(r)
    return out


def tjobs(fam):
    return [dict(module="Transforms", cfg=cfg_text(dict(TBASE, **dict(TFAM, **TDEEP)[fam]), TINV), name=fam)]


def alone(reqs):
    """what each request gives in a process of its own"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(CORES) as ex:
        return [strip(x[0]) for x in ex.map(lambda r: covh("instr", [r], 1), reqs)]


def strip(a):
    return {k: v for k, v in a.items() if k != "id"}


def histories(rep, metas, fam, c):
    from concurrent.futures import ThreadPoolExecutor
    reqs = requests(c["NREQ"], c["NVAR"], fam in PADDED)
    base = alone(reqs)
    for i, b in enumerate(base):
        if "code" not in b:
            rep.violation({"what": "request %s fails: %s" % (reqs[i], b), "kind": "transform"})
            return
    hs = []
    for m in metas:
        rep.add(**({"states": m["states"], "transitions": m["states"]} if not m["cached"] else {"states_of_cached_model_runs": m["states"]}))
        hs += [[q for _, q in h["s"]] for _, h in read_lines(m)]
    hs = [list(x) for x in sorted(set(map(tuple, hs)))]

    def compare(h, outs, how):
        for p, (q, o) in enumerate(zip(h, outs)):
            if strip(o) != base[q - 1]:
                rep.violation({"what": "%s: the output of transform %d (%s) differs from that in a process of its own" % (how, p + 1, reqs[q - 1]["file"]),
                               "kind": "history", "history": [reqs[x - 1] for x in h], "got": o, "wanted": base[q - 1]})
                return
    # all histories in one process, on one thread and on several
    threaded = c["NWORK"] > 1
    for n in (1, CORES):
        ans = covh("hist", [{"steps": [reqs[q - 1] for q in h], "threads": threaded} for h in hs], n)
        for h, a in zip(hs, ans):
            if "panic" in a:
                rep.violation({"what": "history panics: " + a["panic"], "kind": "history", "history": [reqs[q - 1] for q in h]})
            else:
                compare(h, a["outs"], "a process that did other histories before")
    # some histories in a process of their own
    own = hs[SEED % max(1, len(hs) // 150)::max(1, len(hs) // 150)]

    def one(h):
        return covh("hist", [{"steps": [reqs[q - 1] for q in h], "threads": threaded}], 1)[0]
    with ThreadPoolExecutor(CORES) as ex:
        for h, a in zip(own, ex.map(one, own)):
            if "panic" not in a:
                compare(h, a["outs"], "a process of this history")
    rep.add(traces_validated_against_impl=2 * len(hs) + len(own), samples=[json.dumps([reqs[q - 1] for q in hs[-1]])[:1200]])
    rep.cov.setdefault("by_family", {})[fam] = {"histories": len(hs), "own_process": len(own)}


def names(rep, deep):
    """files with different names get different counter functions"""
    import re
    alpha = ["a", "b", "A", "/", ".", "\u00e9", " ", "1"]
    n = 5 if deep else 3
    all_ = ["".join(x) for k in range(1, n + 1) for x in itertools.product(alpha, repeat=k)]
    all_ += ["/repo/src/%s/%d.js" % (d, i) for d in ("x", "y") for i in range(500)]
    seen = {}
    for f, o in zip(all_, covh("instr", [{"src": "a;", "file": f, "mode": "script"} for f in all_])):
        m = re.findall(r"cov_\w+", o.get("code", ""))
        if len(set(m)) != 1:
            rep.violation({"what": "no single counter function for file %r: %s" % (f, o), "kind": "names"})
        elif m[0] in seen:
            rep.violation({"what": "files %r and %r share the counter function %s" % (f, seen[m[0]], m[0]), "kind": "names"})
        else:
            seen[m[0]] = f
    rep.add(names=len(all_))


PLAN = {"C10", "C11"}


def run(rep):
    deep = core.TIER == "thorough"
    rep.cov["exhaustive"] = True
    if rep.prop == "C10":
        m = tlc(module="Runtime", cfg=cfg_text(dict(BASE, MaxOps=3, EMIT=False), INV, properties=["Keeps"]), name="live", cache=False)
        rep.add(states=m["states"], transitions=m["states"])
        for fam in list(FAM) + (list(DEEP) if deep else []):
            registry(rep, tlc_all(jobs(fam)), fam, dict(BASE, **dict(FAM, **DEEP)[fam]))
        c = dict(BASE, **SIM["xf"])
        metas = tlc_all([dict(module="Runtime", cfg=cfg_text(c, INV), name="xf-%d" % i, cache=False,
                              args=("-simulate", "num=%d" % (2000 if deep else 60), "-depth", "30", "-seed", str(SEED * 100 + i))) for i in range(CORES)])
        registry(rep, metas, "xf", c)
        rep.assume += ["a file is loaded into a scope of its own, or only once into a shared one", "histories beyond the stated bounds are sampled"]
    else:
        m = tlc(module="Transforms", cfg=cfg_text(dict(TBASE, MaxLen=2, EMIT=False), TINV), name="live", cache=False)
        rep.add(states=m["states"], transitions=m["states"])
        for fam in list(TFAM) + (list(TDEEP) if deep else []):
            histories(rep, tlc_all(tjobs(fam)), fam, dict(TBASE, **dict(TFAM, **TDEEP)[fam]))
        c = dict(TBASE, **TSIM["xt"])
        metas = tlc_all([dict(module="Transforms", cfg=cfg_text(c, TINV), name="xt-%d" % i, cache=False,
                              args=("-simulate", "num=%d" % (2000 if deep else 40), "-depth", "200", "-seed", str(SEED * 100 + i))) for i in range(CORES)])
        histories(rep, metas, "xt", c)
        names(rep, deep)
        rep.assume += ["interleavings within concurrent transforms are those the machine happens to schedule"]


def quick_jobs():
    return [j for f in FAM for j in jobs(f)] + [j for f in TFAM for j in tjobs(f)]
