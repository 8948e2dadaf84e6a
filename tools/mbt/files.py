"""Checks over the specifications of whole files: IgnoreFile (C08), Embed (C12), Forms (C20), Modules (C22)."""
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import core
from core import SEED, cfg_text, covh, read_lines, tlc, tlc_all

ALLK = {"stmt", "dir", "block", "fn", "cls", "exp", "empty", "inblock", "infn", "inexpr", "inarg", "incls", "blk", "lin", "hash"}
IBASE = dict(ITEMS=ALLK, TEXTS="few", MaxLen=3, MaxHint=1, EMIT=True)
IFAM = {
    "ia": dict(TEXTS="all", ITEMS={"stmt", "blk", "lin"}, MaxLen=2),
    "ib": dict(),
    "ic": dict(ITEMS={"stmt", "dir", "blk", "lin", "hash", "inblock"}, MaxLen=4, MaxHint=2),
}
IDEEP = {"id": dict(TEXTS="all", MaxLen=3, ITEMS={"stmt", "blk", "lin", "hash", "inblock"})}
CODE = {"stmt": "foo();", "dir": "'use strict';", "block": "{ foo(); }", "fn": "function f() { return 1; }", "cls": "class C { m() { return 1; } }",
        "exp": "export const e = 1;", "empty": "if (a) ; else ;", "inblock": "{ %s foo(); }", "infn": "function g(a) { return 1; %s }",
        "inexpr": "foo(%s);", "inarg": "foo(1, %s 2);", "incls": "class D { %s m() { return 1; } }"}
# how many statements, functions and branches an item has
COUNT = {"stmt": (1, 0, 0), "block": (1, 0, 0), "fn": (1, 1, 0), "cls": (1, 1, 0), "exp": (2, 0, 0), "empty": (1, 0, 1),
         "inblock": (1, 0, 0), "infn": (1, 1, 0), "inexpr": (1, 0, 0), "inarg": (1, 0, 0), "incls": (1, 1, 0), "dir": (0, 0, 0)}
OPTS = [{}, {"coverageVariable": "__c__", "reportLogic": True}, {"compact": True, "ignoreClassMethods": ["m", "f"]},
        {"inputSourceMap": {"version": 3, "sources": ["/* istanbul ignore file */"], "names": [], "mappings": ""}}]


def ifile(f, i):
    out = ""
    eol = ["\n", "\n", "\r\n"][i % 3]
    module = i // 3 % 2 == 0
    for x in f:
        t = "".join(x["t"]).replace("\n", eol) if x["t"] else " a note "
        c = "/*%s*/" % t if x["k"] != "lin" else "//%s" % t
        if x["k"] == "hash":
            out += "#!/usr/bin/env node" + eol
        elif x["k"] in ("blk", "lin"):
            if x["nl"] and out and not out.endswith("\n"):
                out += eol
            out += (" " if out and not out.endswith("\n") else "") + c
            if x["k"] == "lin":
                out += eol
        else:
            if out and not out.endswith("\n"):
                out += eol if i % 5 else " "
            code = CODE[x["k"]]
            if x["k"] == "exp" and not module:
                code = CODE["stmt"]
            out += code % c if "%s" in code else code
    return out, "module" if module else "script"


def hinted(x):
    return x["t"] and "next" in x["t"]


def ignore_file(rep, lines, fam):
    cases, reqs = [], []
    for i, x in enumerate(lines):
        src, mode = ifile(x["f"], i)
        if i % 7 == 3:
            mode = "ts" if mode == "module" and "#!" not in src else mode
        cases.append((src, mode, x))
        o = OPTS[i % len(OPTS)]
        reqs.append({"src": src, "file": "/d/a.js", "mode": mode, "opts": dict(o, debugInitialCoverageComment=True)})
        reqs.append({"src": src, "file": "/d/a.js", "mode": mode, "plain": True})
    out = covh("instr", reqs)
    n = 0
    for (src, mode, x), q, a, b in zip(cases, reqs[::2], out[::2], out[1::2]):
        v = None
        if "code" not in b:
            raise core.CheckError("a generated file does not parse: %r %s" % (src, b))
        n += 1
        if "code" not in a:
            v = "fails: %s" % a
        elif x["u"]:
            if a["code"] != b["code"]:
                v = "the file has the hint and is changed"
        else:
            d = json.loads(a["dbg"]) if "dbg" in a else None
            if d is None or "cov_" not in a["code"]:
                v = "the file does not have the hint and is not instrumented"
            elif not any(hinted(k) for k in x["f"]):
                w = [sum(COUNT.get(k["k"] if mode != "script" or k["k"] != "exp" else "stmt", (0, 0, 0))[j] for k in x["f"]) for j in range(3)]
                if "ignoreClassMethods" in q["opts"]:
                    w = w[:1]
                    d["s"] = d["s"] if not any(k["k"] in ("fn", "cls", "infn", "incls") for k in x["f"]) else None
                if d["s"] is not None and [len(d[k]) for k in "sfb"][:len(w)] != w:
                    v = "wanted %s statements, functions and branches, got %s" % (w, [len(d[k]) for k in "sfb"])
        if v:
            rep.violation({"what": v, "source": src, "mode": mode, "opts": q["opts"]})
    rep.add(traces_validated_against_impl=n, samples=[cases[-1][0]])
    rep.cov.setdefault("by_family", {})[fam] = {"files": n}


def ijobs(fam):
    return [dict(module="IgnoreFile", cfg=cfg_text(dict(IBASE, **dict(IFAM, **IDEEP)[fam]), ["Agrees"]), name=fam)]


# ------------------------------------------------------------------ C12
CHARS = {"a": "a", "b": "b", "dq": '"', "sq": "'", "bs": "\\", "lf": "\n", "cr": "\r", "ls": "\u2028", "nul": "\0", "st": "*", "sl": "/", "bt": "`",
         "dl": "${", "hi": "\U0001f600", "uni": "\u65e5", "lt": "</script>", "zwj": "\ufeff", "del": "\x7f", "ctl": "\x1b", "u": "\\u0041", "pct": "%s"}
EBASE = dict(CH={"a"}, MaxStr=1, MODE="str", MaxEdit=0, EMIT=True)
EFAM = {
    "ea": dict(CH=set(CHARS), MaxStr=2),
    "eb": dict(CH={"a", "dq", "bs", "lf", "st", "sl"}, MaxStr=4),
    "ec": dict(MODE="edit", MaxEdit=2),
}
EDEEP = {"ed": dict(MODE="edit", MaxEdit=3), "ee": dict(CH=set(CHARS), MaxStr=3)}
EINV = ["Verbatim", "VerbatimMore"]


def ejobs(fam):
    return [dict(module="Embed", cfg=cfg_text(dict(EBASE, **dict(EFAM, **EDEEP)[fam]), EINV), name=fam)]


def pos(r):
    return {"start": {"line": r[0], "column": r[1]}, "end": {"line": r[2], "column": r[3]}}


def edata(d, names):
    """-> source, path, options, expected coverage data"""
    st = lambda s: "".join(CHARS[c] for c in s)
    name = names.get(d["fname"], d["fname"])
    c = d["col"]
    src = " " * c + "function " + name + "(p) { q; }\n"
    w = {"all": False, "path": st(d["path"]) if d["path"] else ""}
    h = c + len("function ")
    sm = {"0": pos((1, h + len(name) + 6, 1, h + len(name) + 8))}
    fm = {"0": {"name": name, "decl": pos((1, h, 1, h + len(name))), "loc": pos((1, h + len(name) + 4, 1, h + len(name) + 10)), "line": 1}}
    text, n = {"if": ("if (p) q();", 2), "or": ("p || q;", 1), "sw": ("switch (p) { case 1: }", 1)}[d["kind"]]
    for i in range(d["n"]):
        src += "x = 1;\n"
        sm[str(i + 1)] = pos((i + 2, 0, i + 2, 6))
    ln = d["n"] + 2
    src += text
    whole = pos((ln, 0, ln, len(text)))
    sm[str(len(sm))] = whole
    if d["kind"] == "if":
        sm[str(len(sm))] = pos((ln, 7, ln, 11))
        b = {"type": "if", "locations": [whole, whole]}
    elif d["kind"] == "or":
        b = {"type": "binary-expr", "locations": [pos((ln, 0, ln, 1)), pos((ln, 5, ln, 6))]}
        whole = pos((ln, 0, ln, 6))
    else:
        b = {"type": "switch", "locations": [pos((ln, 13, ln, 20))]}
    b.update(loc=whole, line=ln)
    w.update(statementMap=sm, fnMap=fm, branchMap={"0": b}, s={k: 0 for k in sm}, f={"0": 0}, b={"0": [0] * len(b["locations"])})
    o = {}
    if d["logic"]:
        o["reportLogic"] = True
        w["bT"] = {"0": [0, 0]} if d["kind"] == "or" else {}
    if d["sm"]:
        m = {"version": d["ver"], "sources": [st(x) for x in d["sources"]], "names": [st(x) for x in d["names"]], "mappings": st(d["maps"])}
        for k, f in (("file", "file"), ("sourceRoot", "root")):
            if d[f] != ["absent"]:
                m[k] = st(d[f])
        if d["content"] != [["absent"]]:
            m["sourcesContent"] = [None if x == ["null"] else st(x) for x in d["content"]]
        w["inputSourceMap"] = o["inputSourceMap"] = m
    return src, w["path"], o, w


def registered(codes):
    """what the coverage functions of the scripts register, run in node"""
    def part(k):
        mine = codes[k::core.CORES]
        if not mine:
            return []
        with tempfile.TemporaryDirectory(prefix="rg") as t:
            a, b = os.path.join(t, "q"), os.path.join(t, "a")
            with open(a, "w") as f:
                f.write("".join(json.dumps(c) + "\n" for c in mine))
            r = subprocess.run(["node", os.path.join(os.path.dirname(__file__), "regs.js"), a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise core.CheckError("regs: " + r.stdout[-1000:])
            return [json.loads(x) for x in open(b, encoding="utf-8").read().split("\n") if x]
    with ThreadPoolExecutor(core.CORES) as ex:
        parts = list(ex.map(part, range(core.CORES)))
    out = [None] * len(codes)
    for k, p in enumerate(parts):
        out[k::core.CORES] = p
    return out


NAMES = [{}, {"f": "$f_1", "g": "na\u00efve"}, {"f": "\u540d\u524d", "g": "constructor"}, {"f": "hash", "g": "path"}, {"f": "toString", "g": "__proto__"}]


def embed(rep, lines, fam):
    """every version of every history, once with the comment and once without"""
    todo, reqs = {}, []
    for i, x in enumerate(lines):
        for d in x["h"]:
            k = (json.dumps(d, sort_keys=True), i % len(NAMES) if len(x["h"]) == 1 else 0)
            if k not in todo:
                e = edata(d, NAMES[k[1]])
                todo[k] = (len(reqs), e)
                for dbg in (True, False):
                    reqs.append({"src": e[0], "file": e[1], "mode": "script", "opts": dict(e[2], debugInitialCoverageComment=dbg)})
    out = covh("instr", reqs)
    codes = [o.get("code") for o in out]
    bad = next((i for i, c in enumerate(codes) if c is None), None)
    if bad is not None:
        rep.violation({"what": "transform fails: %s" % out[bad], "source": reqs[bad]["src"], "path": reqs[bad]["file"], "opts": reqs[bad]["opts"]})
        return
    regs = registered(codes)
    hashes, schemas = {}, set()
    for k, (i, (src, path, o, w)) in todo.items():
        for j in (i, i + 1):
            v, a = None, regs[j]
            if "error" in a:
                v = "the instrumented file does not run: " + a["error"]
            else:
                t = a["g"].get("__coverage__", {})
                c = t.get(path)
                if list(a["g"]) != ["__coverage__"] or list(t) != [path]:
                    v = "wanted one entry for %r, got globals %s with %s" % (path, list(a["g"]), list(t))
                else:
                    h = c.pop("hash", None)
                    schemas.add(c.pop("_coverageSchema", None))
                    hashes.setdefault(k, set()).add(h)
                    for f in sorted(set(w) | set(c)):
                        if w.get(f, "absent") != c.get(f, "absent"):
                            v = "registered %s is %s, wanted %s" % (f, json.dumps(c.get(f)), json.dumps(w.get(f)))
                    for f in ("statementMap", "fnMap", "branchMap"):
                        if list(c.get(f, {})) != list(w[f]):
                            v = "keys of %s are out of order" % f
            if j == i and not v:
                d = out[j].get("dbg")
                if d is None or "*/" in d:
                    v = "the debug comment is missing or closed early: %r" % d
                elif json.loads(d) != w:
                    v = "the debug comment carries %s, wanted %s" % (d, json.dumps(w))
            elif j != i and "dbg" in out[j]:
                v = "there is a debug comment nobody asked for"
            if v:
                rep.violation({"what": v, "source": src, "path": path, "opts": reqs[j]["opts"]})
    for k, h in hashes.items():
        if len(h) != 1 or not isinstance(next(iter(h)), str):
            rep.violation({"what": "the hash of the same data differs: %s" % sorted(map(str, h)), "source": todo[k][1][0], "opts": todo[k][1][2]})
    if len(schemas) != 1 or None in schemas:
        rep.violation({"what": "_coverageSchema takes the values %s" % schemas})
    n = 0
    view = {}
    for x in lines:
        if len(x["h"]) == 1:
            k = json.dumps(x["h"][0], sort_keys=True)
            view.setdefault(k, None)
            continue
        n += 1
        hs = [next(iter(hashes.get((json.dumps(d, sort_keys=True), 0), {"?"}))) for d in x["h"]]
        for i in range(len(hs)):
            for j in range(i):
                if (hs[i] == hs[j]) != (x["eq"][i] == x["eq"][j]):
                    rep.violation({"what": "versions %d and %d have %s hash" % (j, i, "the same" if hs[i] == hs[j] else "another"), "history": x["h"]})
    # across all of the family: equal hash exactly for equal data
    by = {}
    for k, h in hashes.items():
        by.setdefault(next(iter(h)), set()).add(json.dumps(todo[k][1][3], sort_keys=True))
    for h, ds in by.items():
        if len(ds) > 1:
            rep.violation({"what": "the same hash for different data: %s" % sorted(ds)[:2]})
    seen = {}
    for k, h in hashes.items():
        seen.setdefault(json.dumps(todo[k][1][3], sort_keys=True), set()).update(h)
    for d, h in seen.items():
        if len(h) > 1:
            rep.violation({"what": "the same data has %d hashes: %s" % (len(h), d[:300])})
    rep.add(traces_validated_against_impl=n + len(todo), samples=[json.dumps(reqs[-1])])
    rep.cov.setdefault("by_family", {})[fam] = {"versions": len(todo), "histories": n}


# ------------------------------------------------------------------ C20
FBASE = dict(LANG="ts", START={"S", "D"}, MaxCost=2, EMIT=True)
FFAM = {"fj": dict(LANG="js"), "ft": dict(), "fx": dict(LANG="jsx", START={"J"}), "fy": dict(LANG="tsx", START={"J"})}
FDEEP = {"fz": dict(LANG="jsx", START={"J"}, MaxCost=3)}
FSIM = {"fs": dict(LANG="js", MaxCost=8), "fu": dict(LANG="tsx", MaxCost=8)}
MODES = {"js": ["module"], "ts": ["ts-keep", "ts", "ts-early"], "tsx": ["tsx-keep", "tsx", "tsx-early"], "jsx": ["jsx-keep", "jsx"]}
FOPT = [{}, {"reportLogic": True, "ignoreClassMethods": ["m", "f", "g"], "debugInitialCoverageComment": True}]


def fjobs(fam):
    c = dict(FBASE, **dict(FFAM, **FDEEP, **FSIM)[fam])
    if fam in FSIM:
        deep = core.TIER == "thorough"
        n = core.CORES if deep else 4
        return [dict(module="Forms", cfg=cfg_text(c, ["Bounded"]), name="%s%d" % (fam, k), cache=False,
                     args=("-simulate", "num=%d" % (20000 if deep else 1500), "-depth", "400", "-seed", str(SEED * 1000 + k))) for k in range(n)]
    return [dict(module="Forms", cfg=cfg_text(dict(c, START={x}), ["Bounded", "Closed"]), name=fam + x) for x in sorted(c["START"])]


def compiles(codes):
    """whether V8 accepts each of the modules"""
    def part(k):
        mine = codes[k::core.CORES]
        if not mine:
            return []
        with tempfile.TemporaryDirectory(prefix="cc") as t:
            a, b = os.path.join(t, "q"), os.path.join(t, "a")
            with open(a, "w") as f:
                f.write("".join(json.dumps(c) + "\n" for c in mine))
            r = subprocess.run(["node", "--experimental-vm-modules", "--no-warnings", os.path.join(os.path.dirname(__file__), "compile.js"), a, b],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise core.CheckError("compile: " + r.stdout[-1000:])
            return [json.loads(x) for x in open(b, encoding="utf-8").read().split("\n") if x]
    with ThreadPoolExecutor(core.CORES) as ex:
        parts = list(ex.map(part, range(core.CORES)))
    out = [None] * len(codes)
    for k, p in enumerate(parts):
        out[k::core.CORES] = p
    return out


def forms(rep, lines, fam):
    lang = dict(FBASE, **dict(FFAM, **FDEEP, **FSIM)[fam])["LANG"]
    srcs = sorted({" ".join(x["t"]) for x in lines})
    tally, check = {"programs": 0, "rejected": 0, "v8": 0}, []
    for mode in MODES[lang]:
        reqs = []
        for i, s in enumerate(srcs):
            reqs.append({"src": s, "file": "/d/a." + lang, "mode": mode, "plain": True})
            reqs += [{"src": s, "file": "/d/a." + lang, "mode": mode, "opts": o} for o in FOPT]
        out = covh("instr", reqs)
        k = 1 + len(FOPT)
        for i in range(0, len(reqs), k):
            p = out[i]
            if "code" not in p or "badout" in p:
                tally["rejected"] += 1       # not a program, or not one that swc itself gets through
                continue
            tally["programs"] += 1
            for q, o in zip(reqs[i + 1:i + k], out[i + 1:i + k]):
                v = None
                if "code" not in o:
                    v = "instrumentation fails: %s" % (o.get("panic") or o)
                elif "badout" in o and ("keep" in mode or "@" in q["src"]):
                    tally["unprinted"] = tally.get("unprinted", 0) + 1      # swc's fixer passes over decorators and typed expressions
                elif "badout" in o:
                    v = "the output is not a program: " + o["badout"]
                elif "keep" not in mode and o["code"] != p["code"]:
                    check.append((q, p["code"], o["code"]))
                if v:
                    rep.violation({"what": v, "source": q["src"], "mode": mode, "opts": q["opts"]})
    plain = sorted({c[1] for c in check})
    fine = dict(zip(plain, compiles(plain)))
    check = [c for c in check if fine[c[1]] is None]
    for (q, _, code), e in zip(check, compiles([c[2] for c in check])):
        tally["v8"] += 1
        if e is not None:
            rep.violation({"what": "the output does not compile: " + e, "source": q["src"], "mode": q["mode"], "opts": q["opts"]})
    if tally["programs"] < (1 if fam in FSIM else 4) * tally["rejected"]:
        raise core.CheckError("too few of the generated programs are programs: %s" % tally)
    rep.add(traces_validated_against_impl=tally["programs"] * len(FOPT), samples=[srcs[-1]])
    rep.cov.setdefault("by_family", {})[fam] = tally


# ------------------------------------------------------------------ C22
SBASE = dict(TOPS={"script", "module"}, KINDS={"fn", "fe", "arrow", "objm", "meth", "block"}, STRS={"us", "ot", "par"}, MaxDepth=2, TopStrs=1, MaxStrs=2, EMIT=True)
STRS = {"us": "'use strict';", "usd": '"use strict";', "asi": "'use strict'\n", "hus": "/* istanbul ignore next */\n'use strict';", "cus": "'use strict' /* why */;",
        "ot": "'use client';", "esc": "'use\\x20strict';", "cap": "'Use strict';", "pre": "' use strict';",
        "par": "('use strict');", "cat": "'use strict' + '';", "num": "1;", "bt": "`use strict`;"}
CTX = {"fn": "function f%(i)d(a) {%(b)s} f%(i)d();", "fe": "(function () {%(b)s})();", "nfe": "var v%(i)d = function g%(i)d() {%(b)s}; v%(i)d();", "arrow": "(() => {%(b)s})();",
       "objm": "({ m() {%(b)s} }).m();", "getter": "({ get g() {%(b)s} }).g;", "setter": "({ set g(x) {%(b)s} }).g = 1;", "gen": "[...(function* () {%(b)s})()];",
       "async": "(async () => {%(b)s})();", "afn": "async function h%(i)d() {%(b)s} h%(i)d();", "meth": "new (class { m() {%(b)s} })().m();",
       "ctor": "new (class { constructor(a) {%(b)s} })();", "pm": "new (class { #p() {%(b)s} constructor() { this.#p(); } })();",
       "fld": "(class { static f = (() => {%(b)s})(); });", "sblk": "(class { static {%(b)s} });", "dctor": "new (class extends Object { constructor() {%(b)s super(); } })();",
       "def": "((a = (() => {%(b)s})()) => {})();", "heri": "(class extends (() => {%(b)s return Object; })() { });", "tag": "((s) => s)`${(function () {%(b)s})()}`;",
       "block": "{ %(b)s }", "if": "if (1) { %(b)s }", "case": "switch (1) { case 1: %(b)s }", "lab": "l%(i)d: { %(b)s }", "try": "try { %(b)s } finally { }", "for": "for (;;) { %(b)s break; }",
       "iff": "if (1) { function k%(i)d() {%(b)s} k%(i)d(); }", "ivr": "var w%(i)d = (() => {%(b)s})();"}
SFAM = {
    "sa": dict(STRS={"us", "usd", "asi", "hus", "cus", "ot", "esc", "cap", "pre", "par", "cat", "num", "bt"}, MaxDepth=1, TopStrs=3),
    "sb": dict(KINDS=set(CTX), STRS={"us", "asi", "hus", "cus", "ot", "esc", "par"}, MaxStrs=2),
    "sc": dict(KINDS=set(CTX), STRS={"us"}, MaxDepth=3, MaxStrs=1),
}
SDEEP = {"sd": dict(KINDS=set(CTX), STRS={"us", "ot", "par"}, MaxDepth=3, MaxStrs=1), "se": dict(MaxDepth=4, STRS={"us", "par"}, MaxStrs=1)}
SINV = ["Inherit", "Module"]
MBASE = dict(NM=2, FORMS={"const", "let", "var", "list", "func", "gen", "cls", "dexp", "dfun", "dcls", "darr", "reex", "star", "nstar"},
             USES={"named", "alias", "ns", "side"}, CYCLES=False, MaxDeps=1, EMIT=True)
MFAM = {
    "ma": dict(),
    "mb": dict(CYCLES=True, USES={"named", "ns"}),
    "mc": dict(NM=3, FORMS={"const", "let", "func", "dfun", "reex", "star", "nstar"}, USES={"named"}, MaxDeps=2),
}
MDEEP = {"md": dict(NM=3, FORMS={"const", "let", "func", "dexp", "dcls", "star"}, USES={"named", "ns"}, CYCLES=True, MaxDeps=2)}
MINV = ["First", "Once", "Alive"]
DIRS = ["", "'use strict';\n", "'use client'\n", "'use client';\n'use strict';\n"]


def sjobs(fam):
    if fam in dict(SFAM, **SDEEP):
        c = dict(SBASE, **dict(SFAM, **SDEEP)[fam])
        return [dict(module="Strict", cfg=cfg_text(dict(c, TOPS={t}), SINV), name=fam + t[0]) for t in sorted(c["TOPS"])]
    return [dict(module="Modules", cfg=cfg_text(dict(MBASE, **dict(MFAM, **MDEEP)[fam]), MINV), name=fam)]


def strict_src(ctx, i=0):
    c = ctx[i]
    out = "".join(STRS[x] + " " for x in c["s"]) + "P(%d, (function () { return !this; })());\n" % i
    if i + 1 < len(ctx):
        d = ctx[i + 1]
        out += CTX[d["k"]] % {"i": i, "b": " " + strict_src(ctx, i + 1)} + "\n"
    return out


def node(script, text):
    with tempfile.TemporaryDirectory(prefix="nd") as t:
        a, b = os.path.join(t, "q"), os.path.join(t, "a")
        with open(a, "w") as f:
            f.write(text)
        r = subprocess.run(["node", "--experimental-vm-modules", "--no-warnings", os.path.join(os.path.dirname(__file__), script), a, b],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise core.CheckError(script + ": " + r.stdout[-1000:])
        return [json.loads(x) for x in open(b, encoding="utf-8").read().split("\n") if x]


def spread(script, items):
    """items through a node script, in parallel"""
    with ThreadPoolExecutor(core.CORES) as ex:
        parts = list(ex.map(lambda k: node(script, "".join(json.dumps(x) + "\n" for x in items[k::core.CORES])) if items[k::core.CORES] else [], range(core.CORES)))
    out = [None] * len(items)
    for k, p in enumerate(parts):
        out[k::core.CORES] = p
    return out


def strictness(rep, lines, fam):
    reqs = []
    for i, x in enumerate(lines):
        q = {"src": strict_src(x["c"]), "file": "/d/a.js", "mode": x["c"][0]["k"], "opts": {"reportLogic": i % 2 == 0, "coverageVariable": ["__coverage__", "c"][i % 3 % 2]}}
        reqs += [q, dict(q, plain=True)]
    out = covh("instr", reqs)
    jobs, who = [], []
    for i, x in enumerate(lines):
        q, o, p = reqs[2 * i], out[2 * i], out[2 * i + 1]
        if "code" not in o or "code" not in p:
            rep.violation({"what": "transform fails: %s" % (o if "code" not in o else p), "source": q["src"], "mode": q["mode"]})
            continue
        for code in (q["src"], o["code"]):
            jobs.append({"mods": [code], "mode": q["mode"]})
            who.append((x, q, code))
        # the strings at the head of the file are still there, at the head
        head = [STRS[s].split("*/")[-1].strip(" ;\n") if s != "cus" else "'use strict'" for s in x["c"][0]["s"]]
        n = next((j for j, s in enumerate(x["c"][0]["s"]) if s in ("par", "cat", "num", "bt")), len(head))
        rest = o["code"]
        for h in head[:n]:
            rest = rest.lstrip()
            while rest.startswith("/*"):
                rest = rest.split("*/", 1)[1].lstrip()
            if not rest.startswith(h):
                rep.violation({"what": "the directive %s is not at the head of the output: %r" % (h, rest[:60]), "source": q["src"], "mode": q["mode"]})
                break
            rest = rest[len(h):].lstrip()
            while rest.startswith("/*"):
                rest = rest.split("*/", 1)[1].lstrip()
            rest = rest[1:] if rest.startswith(";") else rest
    skip = None
    for (x, q, code), a in zip(who, spread("modhost.js", jobs)):
        want = sorted([i, m] for i, m in enumerate(x["m"]))
        got = sorted(a["log"]) if "log" in a else a
        if got != want:
            v = {"what": "strict mode of the contexts %s: wanted %s, got %s" % ([c["k"] for c in x["c"]], [w[1] for w in want], got), "source": q["src"], "mode": q["mode"]}
            if code is q["src"]:
                rep.spec.append(v)
                skip = q
            elif skip is not q:
                rep.violation(v)
    rep.add(traces_validated_against_impl=len(lines), samples=[reqs[-1]["src"]])
    rep.cov.setdefault("by_family", {})[fam] = {"programs": len(lines)}


def module_src(g, named, m, i):
    x = g[m - 1]
    deps = x["deps"]
    imp, use, st = "", "", ""
    for k, d in enumerate(deps):
        t, f = d["to"], "./%d" % d["to"]
        through = x["form"] in ("reex", "star", "nstar") and k == len(deps) - 1
        nm, isd, let = "v%d" % t, not named[t - 1], passes(g, t) == "let"
        ref = nm
        if d["use"] == "side":
            imp += "import '%s';\n" % f if not through or i % 2 else ""
        elif d["use"] == "ns":
            imp += "import * as n%d from '%s';\n" % (t, f)
            ref = "n%d.%s" % (t, "default" if isd else "v")
        elif isd:
            imp += ("import %s from '%s';\n" if d["use"] == "named" else "import { default as %s } from '%s';\n") % (nm, f)
        else:
            imp += "import { v as %s } from '%s';\n" % (nm, f) if d["use"] == "named" else "import { 'v' as %s } from '%s';\n" % (nm, f)
        if d["use"] != "side":
            use += "try { P(%d, 'use', W(%s)); } catch (e) { P(%d, 'use', E(e)); }\n" % (m, ref, m)
            if let:
                s = "n%d.set" % t if d["use"] == "ns" else "s%d" % t
                if d["use"] != "ns":
                    imp += "import { set as s%d } from '%s';\n" % (t, f)
                st += "try { %s(); P(%d, 'set', W(%s)); } catch (e) { P(%d, 'set', E(e)); }\n" % (s, m, ref, m)
        if through:
            imp += {"reex": "export { v } from '%s';\n", "star": "export * from '%s';\n", "nstar": "export * as v from '%s';\n"}[x["form"]] % f
    n = "N(%d)" % m
    exp = {"const": "export const v = %s;" % n, "let": "export let v = %s; export function set() { v = 'changed'; }" % n, "var": "export var v = %s;" % n,
           "list": "const w = %s; export { w as v };" % n, "func": "export function v() { return 1; }", "gen": "export async function* v() { yield 1; }", "cls": "export class v { m() { return 1; } }",
           "dexp": "export default %s;" % n, "dfun": ["export default function () { return 1; }", "export default function named(a = 1) { return a; }"][i % 2],
           "dcls": ["export default class { f = 1; }", "export default class Named { static m() { return 1; } }"][i % 2], "darr": "export default (a) => a && 1;"}.get(x["form"], "")
    body = "P(%d, 'start', '');\n%s%s\n%sP(%d, 'end', '');\n" % (m, use, exp, st, m)
    d = DIRS[i % len(DIRS)]
    return d + (imp + body if i % 3 else body + imp)


def passes(g, t):
    x = g[t - 1]
    return passes(g, x["deps"][-1]["to"]) if x["form"] == "star" else x["form"]


def modules(rep, lines, fam):
    reqs = []
    for i, x in enumerate(lines):
        for m in range(1, len(x["g"]) + 1):
            reqs.append({"src": module_src(x["g"], x["named"], m, i + m), "file": "/d/%d.mjs" % m, "mode": "module", "opts": {"reportLogic": i % 2 == 0}})
    out = iter(covh("instr", reqs))
    it = iter(reqs)
    jobs, who = [], []
    for x in lines:
        qs = [next(it) for _ in x["g"]]
        os_ = [next(out) for _ in x["g"]]
        bad = next((o for o in os_ if "code" not in o), None)
        if bad:
            rep.violation({"what": "transform fails: %s" % bad, "source": json.dumps(qs)})
            continue
        for codes, orig in (([q["src"] for q in qs], True), ([o["code"] for o in os_], False)):
            jobs.append({"mods": codes, "mode": "module"})
            who.append((x, qs, orig))
    before = None
    for (x, qs, orig), a in zip(who, spread("modhost.js", jobs)):
        text = "\n//----\n".join(q["src"] for q in qs)
        v = None
        if "log" not in a:
            v = "the modules fail: %s" % a
        elif a["log"] != x["log"]:
            v = "wanted the effects %s, got %s" % (x["log"], a["log"])
        elif [ns.get("v" if x["named"][m] else "default") for m, ns in enumerate(a["ns"])] != x["val"]:
            v = "wanted the exports %s, got %s" % (x["val"], a["ns"])
        if orig:
            before = a if not v else None
            if v:
                rep.spec.append({"what": v, "source": text})
        elif before and (v or a["ns"] != before["ns"]):
            rep.violation({"what": v or "exports were %s and are %s" % (before["ns"], a["ns"]), "source": text})
    rep.add(traces_validated_against_impl=len(lines), samples=[reqs[-1]["src"]])
    rep.cov.setdefault("by_family", {})[fam] = {"graphs": len(lines)}


def structure(rep, lines, fam):
    (strictness if fam in dict(SFAM, **SDEEP) else modules)(rep, lines, fam)


PLAN = {"C22": (["sa", "sb", "sc", "ma", "mb", "mc"], ["sd", "se", "md"]), "C20": (["fj", "ft", "fx", "fy", "fs", "fu"], ["fz"]), "C12": (["ea", "eb", "ec"], ["ed", "ee"]), "C08": (["ia", "ib", "ic"], ["id"])}


def quick_jobs():
    return [j for f in IFAM for j in ijobs(f)] + [j for f in EFAM for j in ejobs(f)] + [j for f in FFAM for j in fjobs(f)] + [j for f in list(SFAM) + list(MFAM) for j in sjobs(f)]


def states(rep, metas):
    for m in metas:
        rep.add(**({"states": m["states"], "transitions": m["states"]} if not m["cached"] else {"states_of_cached_model_runs": m["states"]}))


def run(rep):
    quick, deep = PLAN[rep.prop]
    fams = quick + (deep if core.TIER == "thorough" else [])
    jobs, body = {"C08": (ijobs, ignore_file), "C12": (ejobs, embed), "C20": (fjobs, forms), "C22": (sjobs, structure)}[rep.prop]
    for fam in fams:
        metas = tlc_all(jobs(fam))
        states(rep, metas)
        body(rep, [x for m in metas for _, x in read_lines(m)], fam)
