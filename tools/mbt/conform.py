"""Replays behaviours of spec/Instr.tla into the real instrumenter.

Input: programs and runs as TLC printed them.  Every program is rendered, run as it is (which
validates the specification and the rendering against a real engine), instrumented by the code in
/repo, run again, and everything observable is compared with the specification.
"""
import json
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import render  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
COVH = os.environ.get("COVH", "/verif/target/debug/covh")
SITE = re.compile(r"(cov_\d+)\(\)\.(s|f|b|bT)\[(\d+)\](?:\[(\d+)\])?\+\+")


def parse_tlc(path, want=None):
    """-> {pid: program}, {pid: [run]} of a TLC output file"""
    progs, runs = {}, {}
    with open(path, encoding="utf-8") as f:
        for line in f:
            if line.startswith('"P'):
                o = json.loads(json.loads(line)[1:])
                if want is None or want(o["p"]):
                    progs[o["p"]] = o
                    runs[o["p"]] = []
            elif line.startswith('"R'):
                o = json.loads(json.loads(line)[1:])
                if o["p"] in runs:
                    runs[o["p"]].append(o)
    return progs, runs


def rr(r):
    return (r["start"]["line"], r["start"]["column"], r["end"]["line"], r["end"]["column"])


class Bad(Exception):
    pass


def compare_maps(prog, w, cov):
    """Compares the coverage maps with what the program must get.
    -> list of (aspect, text), and the counters: impl key -> model key"""
    out, names = [], {}
    stm, fns, brs = render.expected(prog, w)
    got = {}
    for k, r in cov["statementMap"].items():
        got.setdefault(rr(r), []).append(k)
    for r in sorted(set(stm) | set(got)):
        a, b = stm.get(r, []), got.get(r, [])
        if len(a) > len(b):
            out.append(("s", "%s statement counter for %s at %s" % ("no" if not b else "only one", a, r)))
        elif len(b) > len(a):
            out.append(("s", "statement counters %s at %s for %s" % (b, r, a or "nothing")))
        else:
            for k, x in zip(b, a):
                names[("s", k, 0)] = x
    got = {}
    anon = set()
    for k, e in cov["fnMap"].items():
        d = rr(e["decl"])
        if d in got:
            out.append(("f", "functions %s and %s have the same range %s" % (got[d][0], k, d)))
        got[d] = (k, e)
    for d in sorted(set(fns) - set(got)):
        out.append(("f", "no function entry for %s at %s" % (fns[d][0], d)))
    for d in sorted(set(got) - set(fns)):
        out.append(("f", "function entry %s at %s for nothing" % (got[d][0], d)))
    for d, (k, e) in got.items():
        if d not in fns:
            continue
        key, name, loc = fns[d]
        names[("f", k, 0)] = key
        if name is not None and e["name"] != name:
            out.append(("f", "function at %s is named %r, not %r" % (d, e["name"], name)))
        if name is None:
            if "anonymous" not in e["name"]:
                out.append(("f", "function at %s without a name is named %r" % (d, e["name"])))
        if rr(e["loc"]) != loc:
            out.append(("f", "body of function at %s is %s, not %s" % (d, rr(e["loc"]), loc)))
        if e["line"] != e["loc"]["start"]["line"]:
            out.append(("f", "line of function at %s is %s" % (d, e["line"])))
    got = {}
    for k, e in cov["branchMap"].items():
        d = (e["type"], rr(e["loc"]))
        if d in got:
            out.append(("b", "branches %s and %s have the same range %s" % (got[d][0], k, d)))
        got[d] = (k, e)
    for d in sorted(set(brs) - set(got)):
        if brs[d][1]:
            out.append(("b", "no branch entry for %s %s" % (brs[d][0], d)))
    for d in sorted(set(got) - set(brs)):
        out.append(("b", "branch entry %s %s for nothing" % (got[d][0], d)))
    for d, (k, e) in got.items():
        if d not in brs:
            continue
        i, paths = brs[d]
        ls = [rr(x) for x in e["locations"]]
        if ls != [p for _, p in paths]:
            out.append(("b", "branch %s has the paths %s, not %s" % (d, ls, [p for _, p in paths])))
            continue
        if e.get("line") is not None and e["line"] != e["loc"]["start"]["line"]:
            out.append(("b", "line of branch %s is %s" % (d, e["line"])))
        for j, (alt, _) in enumerate(paths):
            names[("b", k, j)] = ("b", i, alt)
            names[("t", k, j)] = ("t", i, alt)
    # the parts of the object agree
    if sorted(cov["s"]) != sorted(cov["statementMap"]):
        out.append(("agree", "s and statementMap have different keys"))
    if sorted(cov["f"]) != sorted(cov["fnMap"]):
        out.append(("agree", "f and fnMap have different keys"))
    if sorted(cov["b"]) != sorted(cov["branchMap"]):
        out.append(("agree", "b and branchMap have different keys"))
    else:
        for k, e in cov["branchMap"].items():
            if cov["b"][k] != len(e["locations"]):
                out.append(("agree", "b[%s] has %d counters for %d paths" % (k, cov["b"][k], len(e["locations"]))))
    lgs = {k: len(e["locations"]) for k, e in cov["branchMap"].items() if e["type"] == "binary-expr"}
    if prog["rep"]:
        if (cov.get("bT") or {}) != lgs:
            out.append(("t", "bT has the keys %s, the logical expressions are %s" % (cov.get("bT"), lgs)))
    elif cov.get("bT"):
        out.append(("t", "bT without reportLogic"))
    return out, names


def sites(code, cov, prog):
    """increments in the emitted code: each counter has one, each one has a counter"""
    out, seen = [], {}
    for fn, k, a, b in SITE.findall(code):
        key = (k, a, b)
        seen[key] = seen.get(key, 0) + 1
    want = set()
    for k in cov["s"]:
        want.add(("s", k, ""))
    for k in cov["f"]:
        want.add(("f", k, ""))
    for k, n in cov["b"].items():
        for j in range(n):
            want.add(("b", k, str(j)))
    for k, n in (cov.get("bT") or {}).items():
        for j in range(n):
            want.add(("bT", k, str(j)))
    for k in sorted(want - set(seen)):
        out.append(("agree", "counter %s has no increment" % (k,)))
    for k in sorted(set(seen) - want):
        out.append(("agree", "increment of %s, which the coverage object does not have" % (k,)))
    for k in sorted(want):
        if seen.get(k, 0) > 1:
            out.append(("agree", "counter %s has %d increments" % (k, seen[k])))
    return out


def counts(r, names):
    got, odd = {}, []
    for k, v in r["s"].items():
        got[("s", k, 0)] = v
    for k, v in r["f"].items():
        got[("f", k, 0)] = v
    for kind in ("b", "t"):
        for k, vs in r[kind].items():
            for j, v in enumerate(vs):
                if v != 0:
                    got[(kind, k, j)] = v
    model = {}
    for k, v in got.items():
        if k in names:
            model[names[k]] = v
        else:
            odd.append(k)
    return model, odd


PAIRS = [("m1", "m2"), ("get", "gets"), ("render", "Render"), ("xm", "m"), ("_a", "a"), ("set", "set_"), ("$zm", "$zM"), ("async", "asyn")]


def rename(prog):
    """m1 and m2 stand for two names, which may be alike"""
    a, b = PAIRS[prog["p"] % len(PAIRS)]
    new = {"m1": a, "m2": b}
    for n in prog["n"]:
        n["nm"] = new.get(n["nm"], n["nm"])
    prog["ign"] = [new.get(x, x) for x in prog["ign"]]


def chunk(job):
    """One worker: job = (directory, index, [(program, runs)], options) -> list of findings"""
    d, ix, items, o = job
    seed = o.get("seed", 1)
    fi, fo = os.path.join(d, "i%d" % ix), os.path.join(d, "o%d" % ix)
    ni, no = os.path.join(d, "n%d" % ix), os.path.join(d, "m%d" % ix)
    res = {"viol": [], "spec": [], "programs": 0, "runs": 0, "counters": 0, "samples": []}
    rend = []
    with open(fi, "w", encoding="utf-8") as f:
        for q, (prog, runs) in enumerate(items):
            rename(prog)
            src, w = render.render(prog, seed * 1000003 + prog["p"])
            rend.append((src, w))
            opts = {"reportLogic": prog["rep"], "ignoreClassMethods": prog["ign"]}
            f.write(json.dumps({"id": q, "src": src, "file": "/t/p%d.js" % prog["p"], "mode": o.get("mode", "script"), "opts": opts}) + "\n")
    subprocess.run([COVH, "instr", "1"], stdin=open(fi), stdout=open(fo, "w"), check=True)
    outs = {}
    for line in open(fo, encoding="utf-8"):
        a = json.loads(line)
        outs[a["id"]] = a

    def report(kind, q, text, run=None):
        prog = items[q][0]
        res[kind].append({"aspect": text[0], "what": text[1], "config": o["name"], "program": prog["p"],
                          "source": rend[q][0], "code": outs[q].get("code"), "run": run, "hints": any(n["h"] for n in prog["n"])})

    with open(ni, "w", encoding="utf-8") as f:
        for q, (prog, runs) in enumerate(items):
            a = outs[q]
            res["programs"] += 1
            if a.get("parse_error"):
                report("spec", q, ("parse", "the program does not parse: " + a["parse_error"]))
                continue
            if a.get("panic"):
                report("viol", q, ("panic", "the transform panics: " + str(a["panic"])))
                continue
            f.write(json.dumps({"p": q, "orig": rend[q][0], "code": a["code"], "file": "/t/p%d.js" % prog["p"],
                                "runs": [r["d"] for r in runs]}) + "\n")
    subprocess.run(["node", "--stack-size=4000", os.path.join(HERE, "host.js")], stdin=open(ni), stdout=open(no, "w"), check=True)
    for line in open(no, encoding="utf-8"):
        a = json.loads(line)
        q = a["p"]
        prog, runs = items[q]
        src, w = rend[q]
        if a["eo"]:
            report("spec", q, ("parse", "the program does not compile: " + a["eo"]))
            continue
        if a["ei"] or outs[q].get("badout"):
            report("viol", q, ("broken", "the instrumented program is no program: %s" % (a["ei"] or outs[q]["badout"])))
            continue
        names = None
        for r, ro, ri in zip(runs, a["orig"], a["inst"]):
            want = [[x[0], x[1]] for x in r["l"]]
            done = list(r["c"]) if r["c"][0] == "thr" else ["n", ""]
            if ro["div"] or ro["l"] != want or ro["c"] != done:
                report("spec", q, ("log", "the original program differs from the model: %s %s %s / %s %s" % (ro["div"], ro["l"], ro["c"], want, done)), r["d"])
                continue
            res["runs"] += 1
            if ri["div"] or ri["l"] != want or ri["c"] != done:
                report("viol", q, ("behaviour", "the instrumented program behaves differently: %s %s %s, not %s %s"
                                   % (ri["div"] or "", ri["l"], ri["c"], want, done)), r["d"])
                continue
            if "nocov" in ri:
                report("viol", q, ("agree", "no coverage object is registered: %s" % ri["nocov"]), r["d"])
                continue
            if names is None:
                errs, names = compare_maps(prog, w, a["cov"])
                errs += sites(outs[q]["code"], a["cov"], prog)
                for e in errs:
                    report("viol", q, e)
                res["counters"] += len(names)
            got, odd = counts(ri, names)
            exp = {tuple(k): v for k, v in r["g"]}
            for k in odd:
                report("viol", q, (k[0], "counter %s counted, and stands for nothing" % (k,)), r["d"])
            for k in sorted(set(got) | set(exp)):
                if got.get(k, 0) != exp.get(k, 0) and k in names.values():
                    report("viol", q, (k[0], "counter %s is %d after a run in which it happened %d times"
                                       % (k, got.get(k, 0), exp.get(k, 0))), r["d"])
        if len(res["samples"]) < 1 and runs:
            res["samples"].append({"config": o["name"], "program": src, "decisions": runs[0]["d"], "events": runs[0]["g"]})
    for x in (fi, fo, ni, no):
        os.unlink(x)
    return res


if __name__ == "__main__":
    import tempfile
    progs, runs = parse_tlc(sys.argv[1])
    o = {"name": "cli", "seed": 1}
    with tempfile.TemporaryDirectory() as d:
        import multiprocessing
        ids = sorted(progs)
        n = 8
        jobs = [(d, k, [(progs[p], runs[p]) for p in ids[k::n]], o) for k in range(n)]
        with multiprocessing.Pool(n) as pool:
            rs = pool.map(chunk, jobs)
    tot = {"programs": 0, "runs": 0, "counters": 0}
    seen = {}
    for r in rs:
        for k in tot:
            tot[k] += r[k]
        for kind in ("spec", "viol"):
            for v in r[kind]:
                key = (kind, v["aspect"])
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= int(os.environ.get("SHOW", "2")):
                    print("=====", kind, v["aspect"], v["what"], "\n", v["source"], "\n", v["run"])
                    if os.environ.get("CODE"):
                        print(v["code"][v["code"].rfind("cov_"):][:10] and re.sub(r"(?s)function cov_.*?\n}\n", "", v["code"]))
    print(tot, seen)
