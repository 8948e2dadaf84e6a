"""Checks of the plugin's entry point: Options (C13) and Exclude (C19)."""
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import core
from core import SEED, cfg_text, covh, read_lines, tlc_all
from files import registered, states


def plugin(reqs, alone=False):
    """the requests through the plugin; with alone, a process for each"""
    binary = core.cargo("plugh", "plugh")

    def part(mine):
        if not mine:
            return []
        with tempfile.TemporaryDirectory(prefix="pl") as t:
            a = os.path.join(t, "a")
            r = subprocess.run([binary, a], input="".join(json.dumps(q) + "\n" for q in mine), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            out = [json.loads(x) for x in open(a, encoding="utf-8").read().split("\n") if x] if os.path.exists(a) else []
            if r.returncode != 0 or len(out) != len(mine):
                if alone:
                    return [{"panic": "ends with %s: %s" % (r.returncode, r.stderr[-300:])}]
                raise core.CheckError("plugh ended with %s: %s" % (r.returncode, r.stderr[-1000:]))
            return out
    if alone:
        with ThreadPoolExecutor(core.CORES) as ex:
            return [o for p in ex.map(lambda q: part([q]), reqs) for o in p]
    with ThreadPoolExecutor(core.CORES) as ex:
        parts = list(ex.map(part, [reqs[k::core.CORES] for k in range(core.CORES)]))
    out = [None] * len(reqs)
    for k, p in enumerate(parts):
        out[k::core.CORES] = p
    return out


# ------------------------------------------------------------------ C13
ALL = {"coverageVariable", "compact", "reportLogic", "debugInitialCoverageComment", "ignoreClassMethods", "inputSourceMap", "instrumentLog", "unstableExclude"}
UNK = {"foo", "coverage_variable", "report_logic", "ReportLogic", "instrument_log", "ignoreClassMethod", ""}
BAD = {"empty": "", "brace": '{"reportLogic": true', "word": "not json", "null": "null", "num": "1", "str": '"reportLogic"', "comma": '{"reportLogic": true,}',
       "tail": '{"reportLogic": true} x', "single": "{'reportLogic': true}", "bool": "true", "key": '{reportLogic: true}', "absent": None, "blank": "  "}
OBASE = dict(KEYS=ALL, UNKNOWN={"foo", "coverage_variable", "ReportLogic"}, TEXTS=set(BAD), WRONG=True, MaxEntries=2, EMIT=True)
OFAM = {"oa": dict(), "ob": dict(KEYS={"coverageVariable", "instrumentLog", "inputSourceMap"}, UNKNOWN={"report_logic"}, MaxEntries=3),
        "oc": dict(UNKNOWN=UNK, WRONG=False, MaxEntries=2)}
ODEEP = {"od": dict(UNKNOWN={"foo"}, MaxEntries=3)}
OSIM = {"os": dict(UNKNOWN=UNK, WRONG=False, MaxEntries=9), "ot": dict(UNKNOWN={"foo"}, MaxEntries=5)}
OINV = ["Falls", "Fallback", "OwnKey", "Independent"]
SMAP = {"full": {"version": 4, "file": "o.js", "sourceRoot": "/r", "sources": ["a.ts", "b.ts"], "sourcesContent": ["x", None], "names": ["n"], "mappings": "AAAA"},
        "min": {"version": 3, "sources": [], "names": [], "mappings": ""}, "part": {"version": 3, "sources": ["q.ts"], "names": [], "mappings": "AACA"}}
B = {"yes": "true", "no": "false", "null": "null", "one": "1", "str": '"true"'}
JS = {"coverageVariable": {"str": '"cv_1"', "empty": '""', "uni": '"\\u00e9\\n"', "null": "null", "one": "1", "list": '["x"]'},
      "compact": B, "reportLogic": B, "debugInitialCoverageComment": B,
      "ignoreClassMethods": {"none": "[]", "m": '["m"]', "mn": '["m", "n"]', "null": "null", "str": '"m"', "ones": '["m", 1]'},
      "inputSourceMap": {"null": "null", "full": json.dumps(SMAP["full"]), "min": json.dumps(SMAP["min"]), "few": "{}", "more": json.dumps(dict(SMAP["min"], x_google=[1], debugId="1")),
                         "part": '{"sources": ["q.ts"], "mappings": "AACA"}', "str": '"map"', "one": "1", "vstr": '{"version": "3"}', "nulls": '{"sources": null}'},
      "instrumentLog": {"none": "{}", "off": '{"enableTrace": false}', "bogus": '{"level": "loud"}', "trace": '{"enableTrace": true}', "nul": '{"level": null}', "other": '{"foo": 1}',
                        "info": '{"level": "%s"}', "infot": '{"level": "%s", "enableTrace": true}',
                        "null": "null", "str": '"info"', "lone": '{"level": 1}', "tstr": '{"enableTrace": "yes"}', "tnull": '{"level": "info", "enableTrace": null}'},
      "unstableExclude": {"null": "null", "none": "[]", "this": '["zzz", "**/a.js"]', "that": '["b.js"]', "wrong": '["**/a.js", "["]', "str": '"**/a.js"', "ones": '["**/a.js", 1]'}}
UVAL = {"null": "null", "true": "true", "obj": '{"reportLogic": [1, {"compact": true}]}'}
LEVELS = ["error", "warn", "info", "debug", "trace"]
VARS = {"cv": "cv_1", "": "", "__coverage__": "__coverage__", "\\u00e9\\n": "\u00e9\n"}
SOURCE = "class K { m() { return 1; } n() { if (a) b(); return 2; } }\nfunction f(a) { return a || 1; }\n"


def otext(c, level, i):
    if c and c[0]["k"] == "#":
        return BAD[c[0]["v"]] if c[0]["v"] in BAD else None
    ws = ["", " ", "\n  "][i % 3]
    es = []
    for x in c:
        v = JS[x["k"]][x["v"]] if x["k"] in JS else UVAL[x["v"]]
        es.append(ws + json.dumps(x["k"]) + ":" + ws + v.replace("%s", level))
    return "{" + ",".join(es) + ws + "}"


def ovalue(e, level):
    log = {"{}": (None, False), "bogus": ("loud", False), "trace": (None, True), "info": (level, False), "infot": (level, True)}[e["instrumentLog"]]
    b = lambda k: e[k] == "true"
    return {"coverageVariable": VARS[e["coverageVariable"]], "compact": b("compact"), "reportLogic": b("reportLogic"), "ignoreClassMethods": {"[]": [], "[m]": ["m"], "[m,n]": ["m", "n"]}[e["ignoreClassMethods"]],
            "inputSourceMap": SMAP.get(e["inputSourceMap"]), "instrumentLog": {"level": log[0], "enableTrace": log[1]}, "debugInitialCoverageComment": b("debugInitialCoverageComment"),
            "unstableExclude": {"null": None, "[]": [], "[this]": ["zzz", "**/a.js"], "[that]": ["b.js"], "[wrong]": ["**/a.js", "["]}[e["unstableExclude"]]}


def options(rep, lines, fam):
    cases = {}
    for i, x in enumerate(lines):
        level = LEVELS[i % 5]
        t = otext(x["c"], level, i)
        f = [None, "/d/a.js", "/d/a.js", "a.js", "/d/b.js"][i % 5 if len(lines) > 500 else i % 2]
        cases[(t, f)] = (x["e"], x["bad"], level)
    keys = list(cases)
    # what the text is read as
    texts = [k for k in keys if k[0] is not None]
    for k, a in zip(texts, covh("opts", [{"text": k[0]} for k in texts])):
        e, bad, level = cases[k]
        if bad and "error" not in a:
            if a.get("opts") != ovalue(e, level):
                rep.violation({"what": "wrong options are read as %s" % json.dumps(a.get("opts", a)), "config": k[0]})
        elif not bad and a.get("opts") != ovalue(e, level):
            rep.violation({"what": "wanted the options %s, got %s" % (json.dumps(ovalue(e, level)), json.dumps(a.get("opts", a))), "config": k[0]})
    # what the plugin makes of it
    req = lambda k: {"src": SOURCE, "file": k[1], "config": k[0]}
    loud = [k for k in keys if cases[k][0]["instrumentLog"] in ("info", "infot")]
    calm = [k for k in keys if cases[k][0]["instrumentLog"] not in ("info", "infot")]
    got = dict(zip(calm, plugin([req(k) for k in calm])))
    loud = loud[:2000]
    got.update(zip(loud, plugin([req(k) for k in loud], alone=True)))
    plain = plugin([dict(req(keys[0]), plain=True)])[0]["code"]
    groups = {}
    for k, a in got.items():
        e, bad, level = cases[k]
        w = ovalue(e, level)
        ex = e["unstableExclude"] == "[this]" and (k[1] or "").endswith("a.js")
        if "code" not in a:
            rep.violation({"what": "the plugin fails: %s" % a, "config": k[0], "file": k[1]})
        elif ex != (a["code"] == plain):
            rep.violation({"what": "the file is %sexcluded" % ("not " if ex else ""), "config": k[0], "file": k[1]})
        elif ("dbg" in a and a["dbg"] is not None) != (w["debugInitialCoverageComment"] and not ex):
            rep.violation({"what": "the debug comment is %s" % a.get("dbg"), "config": k[0], "file": k[1]})
        elif not ex:
            for o in ("compact", "instrumentLog", "unstableExclude"):
                del w[o]
            groups.setdefault((json.dumps(w, sort_keys=True), k[1]), {}).setdefault(a["code"], k)
    todo = []
    for (w, f), codes in groups.items():
        if len(codes) > 1:
            rep.violation({"what": "options that say the same of the output differ in it", "config": [k[0] for k in codes.values()][:2], "file": f})
        todo += [(json.loads(w), f or "unknown.js", c, k) for c, k in codes.items()]
    base = None
    for (w, f, code, k), a in zip(todo, registered([t[2] for t in todo])):
        v = None
        if "error" in a:
            v = "the instrumented file does not run: " + a["error"]
        elif list(a["g"]) != [w["coverageVariable"]] or list(a["g"][w["coverageVariable"]]) != [f]:
            v = "wanted the variable %r with an entry for %s, got %s" % (w["coverageVariable"], f, {g: list(x) for g, x in a["g"].items()})
        else:
            c = a["g"][w["coverageVariable"]][f]
            names = [x["name"] for x in c["fnMap"].values()]
            wn = [n for n in ("m", "n") if n not in w["ignoreClassMethods"]] + ["f"]
            if sorted(n for n in names if n in ("m", "n", "f")) != sorted(wn) or len(names) != len(wn):
                v = "wanted the functions %s, got %s" % (wn, names)
            elif ("bT" in c) != w["reportLogic"]:
                v = "bT is %s" % c.get("bT", "absent")
            elif c.get("inputSourceMap") != w["inputSourceMap"]:
                v = "the input source map is %s" % json.dumps(c.get("inputSourceMap"))
            else:
                # what no option names stays as it is
                m = {q: c[q] for q in ("statementMap", "fnMap", "branchMap")}
                if not w["ignoreClassMethods"]:
                    base = base or m
                    if m != base:
                        v = "the maps differ from those of other options: %s" % json.dumps(m)
        if v:
            rep.violation({"what": v, "config": k[0], "file": k[1]})
    # without comments from the host
    quiet = plugin([dict(req(k), nocomments=True) for k in calm[:: max(1, len(calm) // 300)]])
    for k, a in zip(calm[:: max(1, len(calm) // 300)], quiet):
        if "code" not in a:
            rep.violation({"what": "the plugin fails without comments: %s" % a, "config": k[0], "file": k[1]})
    rep.add(traces_validated_against_impl=len(lines), samples=[json.dumps(keys[-1])])
    rep.cov.setdefault("by_family", {})[fam] = {"configurations": len(keys), "groups": len(groups), "with_a_log_level": len(loud)}


def ojobs(fam):
    c = dict(OBASE, **dict(OFAM, **ODEEP, **OSIM)[fam])
    if fam in OSIM:
        deep = core.TIER == "thorough"
        return [dict(module="Options", cfg=cfg_text(c, OINV), name="%s%d" % (fam, k), cache=False,
                     args=("-simulate", "num=%d" % (20000 if deep else 1000), "-depth", "30", "-seed", str(SEED * 1000 + k))) for k in range(core.CORES if deep else 2)]
    return [dict(module="Options", cfg=cfg_text(c, OINV), name=fam)]


# ------------------------------------------------------------------ C19
BADGLOB = {"[", "{a", "a**", "***", "<a", "a//b", "**a/b", "{", "**/**", "(?", "b[", "a/***/b"}
XBASE = dict(NS="three", CS="nine", BADS=set(), ROOTS={True, False}, MaxName=3, MaxPat=2, MinList=1, MaxList=1, EMIT=True)
XFAM = {
    "xa": dict(),
    "xb": dict(NS="two", CS="a***", MaxPat=4),
    "xc": dict(NS="many", CS="many", MaxName=1, MaxPat=1),
    "xd": dict(NS="two", CS="a*", BADS=BADGLOB, MaxName=2, MaxPat=2, MinList=0, MaxList=2),
    "xe": dict(NS="two", CS="a**", BADS={"["}, ROOTS={False}, MaxName=2, MaxPat=2, MinList=3, MaxList=3),
}
XDEEP = {"xf": dict(MaxPat=3), "xg": dict(NS="pre", CS="a?***", MaxName=4, MaxPat=5)}
XINV = ["Agrees", "ListIsUnion", "Ignored"]


def xjobs(fam):
    return [dict(module="Exclude", cfg=cfg_text(dict(XBASE, **dict(XFAM, **XDEEP)[fam]), XINV), name=fam)]


def spell(root, comps, k):
    """a spelling of a path: slashes, backslashes or both"""
    s = [["/"], ["\\"], ["/", "\\"], ["\\", "/"]][k % 4]
    out = s[0] if root else ""
    for i, c in enumerate(comps):
        out += (s[i % len(s)] if i else "") + "".join(c)
    return out


def exclude(rep, lines, fam):
    src = "x();\n"
    plain = plugin([{"src": src, "plain": True}])[0]["code"]
    reqs, want = [], []
    for i, x in enumerate(lines):
        n = x["n"]
        for r in range(2):
            k = (i * 5 + r * 7 + i // 16) % 16
            names, pats = spell(n["root"], n["c"], k % 4), [p["bad"] or spell(p["root"], p["c"], k // 4 + j) for j, p in enumerate(x["p"])]
            if i % 11 == 0 and n["root"] and r:
                # a drive: the patterns that are rooted name it too
                names = "C:" + names
                pats = [("C:" + p if q["root"] else p) for p, q in zip(pats, x["p"])]
            o = [{}, {"reportLogic": True}, {"compact": True, "debugInitialCoverageComment": True}][i % 3]
            reqs.append({"src": src, "file": names, "config": json.dumps(dict(o, unstableExclude=pats))})
            want.append((x["x"], x["l"]))
    for q, (w, loose), a in zip(reqs, want, plugin(reqs)):
        if "code" not in a:
            rep.violation({"what": "the plugin fails: %s" % a, "file": q["file"], "config": q["config"]})
        elif (a["code"] == plain) != w:
            rep.violation({"what": "the file is %s" % ("not excluded" if w else "excluded"), "file": q["file"], "config": q["config"],
                           "kind": "rooted-tree" if loose and not w else "match"})
        elif not w and "cov_" not in a["code"]:
            rep.violation({"what": "the file is changed but not instrumented", "file": q["file"], "config": q["config"]})
    rep.add(traces_validated_against_impl=len(lines), samples=[json.dumps(reqs[-1])])
    rep.cov.setdefault("by_family", {})[fam] = {"pairs": len(lines), "spellings": len(reqs)}


PLAN = {"C13": (list(OFAM) + list(OSIM), list(ODEEP)), "C19": (list(XFAM), list(XDEEP))}


def quick_jobs():
    return [j for f in OFAM for j in ojobs(f)] + [j for f in XFAM for j in xjobs(f)]


def run(rep):
    quick, deep = PLAN[rep.prop]
    jobs, body = {"C13": (ojobs, options), "C19": (xjobs, exclude)}[rep.prop]
    for fam in quick + (deep if core.TIER == "thorough" else []):
        metas = tlc_all(jobs(fam))
        states(rep, metas)
        body(rep, [x for m in metas for _, x in read_lines(m)], fam)
