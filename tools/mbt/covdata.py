"""Checks over spec/CovData.tla and spec/Percent.tla: file coverages, maps, summaries, JSON (C14 - C18, C21)."""
import gzip
import json
import multiprocessing
import re

import core
from core import CORES, SEED, cfg_text, covh, read_lines, tlc, tlc_all

RNG = [(1, 0, 1, 5), (1, 0, 1, 9), (1, 2, 1, 9), (1, 11, 12, 3), (11, 1, 12, 3), (1, 1, 12, 3), (1, 1, 2, 3), (2, 0, 2, 4),
       (2, 4, 2, 8), (3, 0, 13, 9), (3, 0, 3, 139), (2, 0, 3, 4), (1, 0, 2, 5), (4, 12, 5, 3), (4, 1, 25, 3), (41, 2, 53, 0)]
ISM = [None,
       {"version": 3, "file": "a.js", "sourceRoot": "", "sources": ["x.ts", "y \"q\".ts"], "sourcesContent": ["let a\n", None],
        "names": ["a", "\u00e9"], "mappings": "AAAA;\\u0000"},
       {"version": 3, "file": None, "sourceRoot": None, "sources": [], "sourcesContent": None, "names": [], "mappings": ""}]
TYPES = ["if", "binary-expr", "cond-expr", "switch", "default-arg"]
NAMES = ["", "(anonymous_0)", "foo", "say \"hi\"\\", "h\u00e9llo \u4e16"]

INV = ["InvWellFormed", "InvMerge", "InvAssoc", "InvReset", "InvSummary", "InvLines", "InvMaps"]
BASE = dict(NREG=2, NMAP=1, KINDS={"s"}, LOCS={1}, FIRST={1}, PATHS={"/a"}, HITS={0, 2}, MODES={"zero"}, ALLS={False}, ISMS={0},
            MaxEnt=2, MaxArm=2, LINES={"loc"}, OPS={"merge"}, MaxOps=1, DEEP=False, EMIT=True)
P3 = {"/a/x.js", "/a/X.js", "a/x.js"}
FAM = {
    # two files, every pair of statement lists
    "ds": dict(LOCS={1, 2, 5, 6}, FIRST={1, 4, 5}, MODES={"zero", "rev"}, ALLS={False}),
    "df": dict(KINDS={"f"}, LOCS={1, 2, 5}, FIRST={1, 4, 5}, MODES={"one", "rev"}, HITS={2}),
    # branches with one or two alternatives, with and without true counters
    "db": dict(KINDS={"b"}, LOCS={1, 2, 5}, FIRST={1, 4, 5}, MODES={"zero", "rev"}, HITS={2}),
    "dt": dict(KINDS={"b", "t"}, LOCS={1, 5}, FIRST={1, 5, 6}, MODES={"zero", "rev"}, HITS={2}, MaxArm=1),
    # placeholders, source maps, several operations
    "dh": dict(NREG=2, KINDS={"s", "b", "t"}, LOCS={1}, FIRST={1}, ALLS={False, True}, MODES={"gap"}, HITS={1}, MaxEnt=1, MaxArm=1, MaxOps=2,
               OPS={"merge", "reset", "copy"}),
    "di": dict(KINDS={"s", "f", "b"}, LOCS={3}, FIRST={3}, ALLS={False, True}, ISMS={0, 1, 2}, MODES={"gap"}, HITS={1}, MaxEnt=1, MaxArm=1,
               MaxOps=2, OPS={"merge", "reset", "copy"}, LINES={"both"}),
    # coverage maps
    "dm": dict(NREG=2, NMAP=2, LOCS={1}, FIRST={1}, PATHS={"/a/x.js", "/a/X.js"}, HITS={1}, MaxEnt=1, MaxOps=3,
               OPS={"madd", "mmerge", "mfilter"}),
    "dn": dict(NREG=2, NMAP=2, LOCS={1, 2}, FIRST={1}, PATHS={"/a/x.js", "a/x.js"}, ALLS={False, True}, HITS={1}, MaxEnt=1, MaxOps=2,
               OPS={"madd", "mmerge", "mfilter", "mof", "merge", "reset"}),
    # views
    "dv": dict(NREG=1, LOCS=set(), FIRST={1, 2, 5, 8, 9}, HITS={0, 1, 3}, MaxEnt=3, OPS=set(), MaxOps=0),
    "dw": dict(NREG=1, KINDS={"b"}, LOCS=set(), FIRST={1, 2, 5, 8}, HITS={0, 3}, MaxEnt=2, MaxArm=3, OPS=set(), MaxOps=0,
               LINES={"loc", "line", "both"}),
    "dx": dict(NREG=2, KINDS={"s", "f", "b", "t"}, LOCS={2}, FIRST={1}, HITS={0, 1}, MaxEnt=1, MaxArm=1, OPS=set(), MaxOps=0),
}
SIM = {
    "xd": dict(NREG=3, NMAP=2, KINDS={"s", "f", "b", "t"}, LOCS={1, 2, 5, 8, 9}, FIRST={1, 2, 4, 5}, PATHS={"/a/x.js", "/a/X.js"},
               HITS={0, 3}, MODES={"one", "rev"}, ALLS={False, True}, ISMS={0, 1}, MaxEnt=4, MaxArm=2,
               LINES={"loc", "both"}, OPS={"merge", "reset", "copy", "madd", "mmerge", "mfilter"}, MaxOps=8),
    "xe": dict(NREG=2, NMAP=1, KINDS={"s", "f", "b", "t"}, LOCS={1, 2, 5, 8, 16}, FIRST={1, 3, 6, 7, 8}, PATHS={"/a"},
               HITS={0, 1, 100000}, MODES={"zero", "gap", "rev"}, ALLS={False}, ISMS={2}, MaxEnt=4, MaxArm=2,
               LINES={"line", "loc"}, OPS={"merge", "reset"}, MaxOps=6),
}


def jobs(fam):
    return [dict(module="CovData", cfg=cfg_text(dict(BASE, **FAM[fam]), INV), name=fam, mem="4g")]


def simjobs(fam, num, seed):
    return [dict(module="CovData", cfg=cfg_text(dict(BASE, **SIM[fam]), INV), name="%s-%d" % (fam, i), cache=False,
                 args=("-simulate", "num=%d" % num, "-depth", "120", "-seed", str(seed * 100 + i))) for i in range(CORES)]


def pctjob(deep=False):
    big = {1000 * 1000 - 1, 999999, 10000, 10001, 20000, 20001, 99999, 100000, 100001, 123457, 42949, 42950, 65535, 65536, 1 << 24,
           (1 << 24) + 1, 99999989, 199999991, 200000000, 7 ** 9, 3 ** 16}
    return [dict(module="Percent", cfg=cfg_text(dict(SMALL=1500 if deep else 400, LARGE=big), ["Bounds", "Full", "Truncated", "Monotone"]), name="pct")]


# ------------------------------------------------------------------ the specification's values as harness input
def second(l):
    return (l + 5) % len(RNG) + 1


def rng(l):
    return list(RNG[l - 1])


def wire(a):
    f = []
    for e in a["f"]:
        d = rng(second(e["loc"]))
        f.append([e["k"], rng(e["loc"]), e["ns"][0], NAMES[(e["loc"] + 2 * e["nm"]) % len(NAMES)], d, d[0] + e["nm"]])
    b = [[e["k"], [rng(x) for x in e["locs"]], e["ns"], e["ty"], rng(e["bl"]) if e["lm"] != "line" else None,
          e["ln"] if e["lm"] != "loc" else None] for e in a["b"]]
    return {"path": a["path"], "all": a["all"], "s": [[e["k"], rng(e["loc"]), e["ns"][0]] for e in a["s"]], "f": f, "b": b,
            "bT": [[e["k"], e["ns"]] for e in a["t"]["e"]] if a["t"]["on"] else None, "ism": ISM[a["ism"]]}


def diff_file(want, got):
    """want: wire form; got: harness form; -> set of parts that differ"""
    if got is None:
        return {"missing"}
    bad = set()
    for k in ("path", "all", "ism"):
        if want[k] != got[k]:
            bad.add("meta")
    for k in ("s", "f", "b"):
        if want[k] != got[k]:
            w0, g0 = [x[:2] + x[3:] for x in want[k]], [x[:2] + x[3:] for x in got[k]]
            bad.add("map" if w0 != g0 else "count")
    if got["order"] != [[x[0] for x in want[k]] for k in ("s", "f", "b")]:
        bad.add("map")
    if (want["bT"] is None) != (got["bT"] is None) or (want["bT"] is not None and sorted(want["bT"]) != sorted(got["bT"])):
        bad.add("true")
    return bad


def pct(t):
    return 100.0 if t[1] == 0 else (10000 * t[0] // t[1]) / 100.0


def diff_total(want, got, unknown_ok=False):
    if got is None or got[:2] != list(want) or got[2] != 0:
        return True
    if got[3] is None:
        return not (unknown_ok and want[1] == 0)
    return abs(got[3] - pct(want)) > 0.001


def diff_summary(want, got, unknown_ok=False, true_unknown_ok=False):
    bad = [k for k in ("lines", "statements", "functions", "branches") if diff_total(want[k], got[k], unknown_ok)]
    if want["true"]:
        if diff_total(want["true"][0], got["true"], unknown_ok or true_unknown_ok):
            bad.append("true")
    elif got["true"] is not None:
        bad.append("true")
    if got["empty"] != (want["lines"][1] == 0):
        bad.append("empty")
    return bad


COVLINE = re.compile(r"covered: (\d+), total: (\d+), coverage: ([0-9.]+)")


def diff_view(want, got):
    bad = set()
    if sorted(want["lc"]) != sorted(got["lc"]) or len(want["lc"]) != len(got["lc"]):
        bad.add("lc")
    if sorted(want["un"]) != sorted(got["un"]):
        bad.add("un")
    bl = {}
    for k, t in got["bl"]:
        m = COVLINE.search(t)
        bl[k] = (int(m.group(1)), int(m.group(2)), float(m.group(3))) if m else None
    if set(bl) != {x[0] for x in want["bl"]} or len(got["bl"]) != len(want["bl"]):
        bad.add("bl")
    else:
        for l, c, t in want["bl"]:
            if bl[l] is None or bl[l][:2] != (c, t) or abs(bl[l][2] - 100.0 * c / t) > 0.01:
                bad.add("bl")
    if diff_summary(want["sum"], got["sum"]):
        bad.add("sum")
    return bad


def request(h):
    regs = [wire(r) for r in h["ops"][0]["reg"]]
    return {"regs": regs, "nmap": len(h["map"]), "ops": h["ops"][1:], "probe": sorted(P3 | {"/a"})}


def aspects_of(h, r):
    """-> {aspect: what}"""
    out = {}
    kinds = {o["o"] for o in h["ops"][1:]}
    if "panic" in r:
        return {"panic": "the operations panic: " + r["panic"]}
    parts = set()
    for i, a in enumerate(h["reg"]):
        parts |= diff_file(wire(a), r["regs"][i])
        v = diff_view(h["v"][i], r["v"][i])
        if v & {"lc", "un", "bl"} and not diff_file(wire(a), r["regs"][i]):
            out["lines"] = "file %d: %s wanted %s got %s" % (i + 1, sorted(v), h["v"][i], r["v"][i])
        if "sum" in v and not diff_file(wire(a), r["regs"][i]):
            out["summary"] = "file %d: wanted %s got %s" % (i + 1, h["v"][i]["sum"], r["v"][i]["sum"])
    if parts:
        last = h["ops"][-1]["o"]
        what = "after %s: wanted %s got %s" % (h["ops"][1:], [wire(a) for a in h["reg"]], r["regs"])
        if "merge" in kinds:
            out["merge"] = what
        if "reset" in kinds and (last == "reset" or "merge" not in kinds or parts & {"count", "true"}):
            out["reset"] = what
        if not kinds & {"merge", "reset"}:
            out["other"] = what
    for i, m in enumerate(h["map"]):
        g = r["maps"][i]
        if g["files"] != [a["path"] for a in m] or any(diff_file(wire(a), e) for a, e in zip(m, g["entries"])) \
                or r["probe"][i] != [any(a["path"] == p for a in m) for p in sorted(P3 | {"/a"})]:
            out["maps"] = "map %d after %s: wanted %s got %s" % (i + 1, h["ops"][1:], [wire(a) for a in m], g)
        elif diff_summary(h["ms"][i], g["sum"], unknown_ok=not m, true_unknown_ok=True):
            out["summary"] = "map %d after %s: wanted %s got %s" % (i + 1, h["ops"][1:], h["ms"][i], g["sum"])
    if not parts and diff_summary(h["two"], r["two"]):
        out["summary"] = "merged summaries: wanted %s got %s" % (h["two"], r["two"])
    return out


def part_of(meta, k, n):
    """the histories that worker k of n takes"""
    with gzip.open(meta["file"], "rb") as f:
        for i, line in enumerate(f):
            if i % n == k:
                yield json.loads(json.loads(line)[1:])


def feed_work(job):
    meta, k, n, aspects = job
    out, count, sample, batch = [], 0, None, []

    def flush():
        nonlocal sample
        reqs = [request(h) for h in batch]
        sample = json.dumps(reqs[-1])[:1500]
        for h, q, r in zip(batch, reqs, covh("oxide", reqs, 1)):
            for a, what in aspects_of(h, r).items():
                if (a in aspects or a == "panic") and len(out) < 200:
                    out.append({"what": what, "aspect": a, "ops": q["ops"], "regs": q["regs"]})
        del batch[:]
    for h in part_of(meta, k, n):
        count += 1
        batch.append(h)
        if len(batch) >= 4000:
            flush()
    if batch:
        flush()
    return out, count, sample


def spread(rep, metas, fn, extra):
    core.cargo("covh", "covh")
    todo = []
    for m in metas:
        rep.add(**({"states": m["states"], "transitions": m["states"]} if not m["cached"] else {"states_of_cached_model_runs": m["states"]}))
        n = max(1, min(CORES, m["lines"] // 1000)) if len(metas) == 1 else 1
        todo += [(m, k, n, extra) for k in range(n)]
    total = 0
    with multiprocessing.Pool(CORES) as pool:
        for out, count, sample in pool.imap_unordered(fn, todo, chunksize=1):
            total += count
            for v in out:
                rep.violation(v)
            if sample:
                rep.add(samples=[sample])
    rep.add(traces_validated_against_impl=total)
    return total


def feed(rep, aspects, metas, fam):
    n = spread(rep, metas, feed_work, aspects)
    rep.cov.setdefault("by_family", {})[fam] = {"histories": n, "model_states": sum(m["states"] for m in metas),
                                               "model_cached": all(m["cached"] for m in metas)}


def percents(rep, deep):
    metas = tlc_all(pctjob(deep))
    for m in metas:
        rep.add(states=m["states"], transitions=m["states"])
        rows = [v for _, v in read_lines(m)]
        n = 0
        for v, r in zip(rows, covh("percent", [{"t": v["t"], "c": v["c"]} for v in rows])):
            if "panic" in r:
                rep.violation({"what": "percentage of %s panics: %s" % (v["t"], r["panic"]), "aspect": "summary"})
                continue
            for c, p, a, s in zip(v["c"], v["p"], r["p"], r["m"]):
                n += 1
                if abs(a - p / 100.0) > 0.001 or (p < 10000 and a >= 100):
                    rep.violation({"what": "%d of %d is %r, not %.2f" % (c, v["t"], a, p / 100.0), "aspect": "summary", "c": c, "t": v["t"]})
                for x in s:
                    if x[:3] != [c, v["t"], 0] or x[3] is None or abs(x[3] - p / 100.0) > 0.001:
                        rep.violation({"what": "merged summaries of %d of %d: %r" % (c, v["t"], x), "aspect": "summary", "c": c, "t": v["t"]})
        rep.add(percentages=n)


# ------------------------------------------------------------------ JSON (C21)
def loc_json(r):
    return {"start": {"line": r[0], "column": r[1]}, "end": {"line": r[2], "column": r[3]}}


def ism_json(m):
    if m is None:
        return None
    out = {"version": m["version"], "sources": m["sources"], "names": m["names"], "mappings": m["mappings"]}
    for k in ("file", "sourceRoot", "sourcesContent"):
        if m[k] is not None:
            out[k] = m[k]
    return out


def file_json(w):
    d = {"all": w["all"], "path": w["path"],
         "statementMap": [[str(e[0]), loc_json(e[1])] for e in w["s"]],
         "fnMap": [[str(e[0]), {"name": e[3], "decl": loc_json(e[4]), "loc": loc_json(e[1]), "line": e[5]}] for e in w["f"]],
         "branchMap": [[str(e[0]), {"loc": loc_json(e[4]) if e[4] else None, "type": TYPES[e[3]],
                                    "locations": [loc_json(x) for x in e[1]], "line": e[5]}] for e in w["b"]],
         "s": [[str(e[0]), e[2]] for e in w["s"]], "f": [[str(e[0]), e[2]] for e in w["f"]],
         "b": [[str(e[0]), e[2]] for e in w["b"]]}
    if w["bT"] is not None:
        d["bT"] = [[str(k), v] for k, v in w["bT"]]
    if w["ism"] is not None:
        d["inputSourceMap"] = ism_json(w["ism"])
    return d


MAPS = {"statementMap", "fnMap", "branchMap", "s", "f", "b", "bT"}


def normal(pairs):
    """keeps the order of the numbered maps, drops that of the named fields"""
    if pairs and all(k.isdigit() for k, _ in pairs):
        return [[k, v] for k, v in pairs]
    return dict(pairs)


def parse(text):
    d = json.loads(text, object_pairs_hook=normal)
    for k in MAPS:
        if d.get(k) == {}:
            d[k] = []
    return d


def dump(d, ren=lambda k: k):
    return json.dumps({ren(k): (dict((a, b) for a, b in v) if k in MAPS else v) for k, v in d.items()}, ensure_ascii=False)


def variants(d):
    """JSON as other istanbul tools write it -> (text, wire fields it leaves out)"""
    a = dict(d)
    a.pop("all")
    a["_coverageSchema"], a["hash"] = "1a1c01bbd47fc00a2c39e90264f33305004495a9", "abc"
    b = {k: d[k] for k in reversed(list(d)) if k not in ("bT", "inputSourceMap", "all")}
    b["branchMap"] = [[k, {x: y for x, y in v.items() if y is not None}] for k, v in d["branchMap"]]
    if "inputSourceMap" in d:
        c = dict(d, inputSourceMap={"version": 3, "sources": [], "names": [], "mappings": "", "x_google_ignoreList": []})
    else:
        c = dict(d, bT=[], inputSourceMap=None)
    return [(dump(a), {"all": False}), (dump(b), {"all": False, "bT": None, "ism": None}),
            (dump(c), {"ism": ISM[2]} if "inputSourceMap" in d else {"bT": [], "ism": None})]


def json_work(job):
    meta, k, n, _ = job
    seen, todo, out = set(), [], []
    for h in part_of(meta, k, n):
        for a in h["reg"] + [x for y in h["map"] for x in y]:
            w = wire(a)
            t = json.dumps(w)
            if t not in seen:
                seen.add(t)
                todo.append(w)
    reqs = [{"file": w, "accept": [t for t, _ in variants(file_json(w))]} for w in todo]
    for w, q, r in zip(todo, reqs, covh("json", reqs, 1)):
        what = None
        if "panic" in r:
            what = "panic: " + r["panic"]
        elif parse(r["text"]) != file_json(w):
            what = "written as %s, not %s" % (r["text"], dump(file_json(w)))
        elif not r["same"] or not r["via"] or r["back"] != r["value"]:
            what = "read back as %s" % (r["back"],)
        elif r["types"] != TYPES:
            what = "branch types %s" % (r["types"],)
        else:
            for (t, over), g in zip(variants(file_json(w)), r["accepted"]):
                if not isinstance(g, dict) or diff_file(dict(w, **over), g):
                    what = "%s is read as %s" % (t, g)
        if what and len(out) < 200:
            out.append({"what": what, "aspect": "json", "file": w})
    return out, len(todo), json.dumps(todo[-1])[:1500] if todo else None


def jsons(rep, metas, fam):
    rep.cov.setdefault("by_family", {})[fam] = {"coverages": spread(rep, metas, json_work, None)}


PLAN = {
    "C14": ({"merge", "other"}, ["ds", "df", "db", "dt", "dh", "di"], ["xe", "xd"]),
    "C15": ({"maps"}, ["dm", "dn"], ["xd"]),
    "C16": ({"summary"}, ["dv", "dw", "dx", "dm"], ["xd", "xe"]),
    "C17": ({"lines"}, ["dv", "dw"], ["xe", "xd"]),
    "C18": ({"reset"}, ["dh", "di"], ["xe", "xd"]),
    "C21": ({"json"}, ["db", "dt", "di", "dx"], ["xd", "xe"]),
}


def run(rep):
    aspects, fams, sims = PLAN[rep.prop]
    deep = core.TIER == "thorough"
    num = 3000 if deep else 40
    over = jobs("dx")[0]
    over.update(name="live", cache=False)
    m = tlc(**over)
    rep.add(states=m["states"], transitions=m["states"])
    for fam in fams:
        metas = tlc_all(jobs(fam))
        if rep.prop == "C21":
            jsons(rep, metas, fam)
        else:
            feed(rep, aspects, metas, fam)
    for s in sims if deep else sims[:1]:
        metas = tlc_all(simjobs(s, num, SEED))
        if rep.prop == "C21":
            jsons(rep, metas, s)
        else:
            feed(rep, aspects, metas, s)
    if rep.prop == "C16":
        percents(rep, deep)
    rep.cov["exhaustive"] = True
    rep.assume += ["coverages beyond the stated bounds are sampled", "well-formed coverage: the entries of one kind of a file have different ranges "
                   "and every branch has an alternative"]


def quick_jobs():
    fams = sorted({f for _, q, _ in PLAN.values() for f in q})
    return [j for f in fams for j in jobs(f)] + pctjob()
