"""Checks over spec/Instr.tla: the families of programs and who uses which."""
import gzip
import json
import multiprocessing
import os
import re
import tempfile

import conform
import core
from core import CORES, SEED, cargo, cfg_text, tlc, tlc_all

ALL = {"expr", "tag", "log", "call", "gen", "strict", "logic", "cond", "dflt", "loop", "stmt", "sw", "try", "jump", "lab",
       "misc", "with", "var", "fn", "cls", "fval"}
NEW = {"op", "lit", "par", "pats", "ever", "nil", "dir", "mems", "xs"}
HOSTED = {"T", "F", "N", "U", "zero", "es", "nan", "nz", "bz", "ea", "eo", "O", "X", "s0"}
BASE = dict(FEAT=ALL, NAMES={"m1"}, HKINDS=set(), TOP="script", REPORT=False, IGN=set(), K=1, HB=0, HREQ=False, NEED=set(), SIM=False,
            VALS={"T", "F", "X"}, NVALS={"T", "N", "X"}, CNTS={"0", "2"}, MaxFault=1, FreeDec=2, MaxAsk=3, Seeds={1}, Again=1,
            Fuel=600, EMIT=True)
INV = ["SameBehaviour", "CountsAreEvents", "CountersAgree", "NotStuck"]

SLIM = dict(VALS={"T", "F"}, NVALS={"T", "N"}, MaxFault=0, FreeDec=1)
FAM = {
    # every program made of one construct, every decision tried
    "k1": dict(FreeDec=6, CNTS={"0", "1", "2"}),
    # every program made of two
    "k2": dict(K=2),
    # one construct of the wider grammar; with operators, literals and patterns inside each other
    "w1": dict(FEAT=ALL | NEW, FreeDec=5, CNTS={"0", "1", "2"}),
    "o2": dict(K=2, FEAT={"op", "log", "call", "jump", "var", "fval", "cls", "dflt", "cond", "logic", "loop", "stmt", "sw", "tag", "xs"},
               NEED={"op1", "op2"}, **SLIM),
    "l2": dict(K=2, FEAT=(ALL - {"expr", "gen", "strict", "with", "lab"}) | {"lit", "xs", "dir", "par"}, NEED={"lit"}, **SLIM),
    "p2": dict(K=2, FEAT={"pats", "dflt", "var", "fn", "fval", "cls", "call", "log", "loop", "stmt", "logic", "cond", "mems", "xs", "jump",
                          "tag", "expr"}, NEED={"pat", "opat", "spat", "lpat", "o"}, **SLIM),
    "n2": dict(K=2, FEAT={"nil", "fn", "cls", "call", "stmt", "sw", "loop", "fval", "mems", "log", "xs", "ever"}, **SLIM),
    # the same with a hint comment
    "hw": dict(FEAT=ALL | NEW, HKINDS={"next", "if", "else"}, HB=1, HREQ=True),
    "h1": dict(HKINDS={"next", "if", "else", "bad"}, HB=1, HREQ=True),
    "h2": dict(K=2, FEAT=ALL - {"gen", "strict", "with", "tag", "misc", "try", "lab", "expr", "log"}, HKINDS={"next", "if", "else"}, HB=1, HREQ=True, **dict(SLIM, FreeDec=0)),
    "h2t": dict(K=2, HKINDS={"next", "if", "else"}, HB=1, HREQ=True, FreeDec=1, MaxFault=0),
    # logical expressions with truth tracking over all kinds of values
    "r2": dict(K=2, FEAT={"logic", "cond", "expr", "call", "log", "dflt"}, REPORT=True, FreeDec=3, VALS=HOSTED, NVALS={"T", "N"}),
    "r3": dict(K=3, FEAT={"logic", "log", "stmt"}, REPORT=True, FreeDec=1, Seeds={1, 2, 3, 4, 5}, VALS=HOSTED, NVALS={"T", "N"}),
    "rl": dict(K=2, FEAT={"logic", "cond", "op", "lit", "log", "par", "call", "xs"}, REPORT=True, FreeDec=2, VALS={"T", "F", "O", "ea", "eo", "X"},
               NVALS={"T", "N"}, NEED={"op1", "op2", "lit"}),
    # methods excluded by name
    "g1": dict(FEAT=ALL | {"mems", "nil", "pats"}, NAMES={"m1", "m2"}, IGN={"m1"}),
    "g2": dict(K=2, FEAT={"fval", "fn", "cls", "call", "log", "mems"}, NAMES={"m1", "m2"}, IGN={"m1"}, FreeDec=1),
    # strict code
    "s2": dict(K=2, FEAT={"strict", "fn", "cls", "call", "log", "stmt", "gen"}, TOP="strict", FreeDec=1),
}
PARTED = {"k2", "h2", "h2t", "g2", "r3", "p2", "n2", "o2"}
PARTS = 8
BIG = ("h2", "k2", "n2", "p2", "o2", "r3", "g2")
SIMFAM = {
    "xk": dict(K=9, FEAT=ALL | NEW),
    "xh": dict(K=7, FEAT=ALL | NEW, HKINDS={"next", "if", "else", "bad"}, HB=2, HREQ=True),
    "xr": dict(K=7, FEAT={"logic", "cond", "expr", "call", "log", "dflt", "stmt", "fn", "tag", "var", "op", "lit", "par", "xs"}, REPORT=True, VALS=HOSTED),
    "xg": dict(K=7, NAMES={"m1", "m2"}, IGN={"m1"}, HKINDS={"next"}, HB=1, FEAT={"fval", "fn", "cls", "call", "log", "expr", "logic", "mems", "nil"}),
    "xs": dict(K=7, TOP="strict", FEAT=(ALL | NEW) - {"with"}),
}


def consts(over):
    c = dict(BASE)
    c.update(over)
    return c


def jobs(fam):
    parts = PARTS if fam in PARTED else 1
    return [dict(module="Instr", cfg=cfg_text(dict(consts(FAM[fam]), PARTS=parts, PART=i), INV), name="%s-%d" % (fam, i))
            for i in range(parts)]


def simjobs(fam, num, seed):
    c = dict(consts(SIMFAM[fam]), PARTS=1, PART=0, SIM=True, FreeDec=0, Again=6)
    return [dict(module="Instr", cfg=cfg_text(c, INV), name="%s-%d" % (fam, i), cache=False,
                 args=("-simulate", "num=%d" % num, "-depth", "2000", "-seed", str(seed * 100 + i))) for i in range(CORES)]


PID = re.compile(r'^"[PR]\{\\"p\\":(\d+)')


def work(job):
    d, ix, part, meta, o = job
    progs, runs = {}, {}
    with gzip.open(meta["file"], "rt", encoding="utf-8") as f:
        for line in f:
            m = PID.match(line)
            p = int(m.group(1)) if m else None
            if p is None or (part and p % part[1] != part[0]):
                continue
            v = json.loads(json.loads(line)[1:])
            if line[1] == "P":
                progs[p], runs[p] = v, []
            elif p in runs:
                runs[p].append(v)
    return conform.chunk((d, ix, [(progs[p], runs[p]) for p in sorted(progs) if runs[p]], o))


def replay(metas, name, opts=None):
    cargo("covh", "covh")
    out = {"viol": [], "spec": [], "programs": 0, "runs": 0, "counters": 0, "samples": []}
    with tempfile.TemporaryDirectory(prefix="mbt") as d:
        todo = []
        for m in metas:
            n = max(1, min(CORES, m["lines"] // 4000)) if len(metas) < 4 else max(1, m["lines"] // 40000)
            for k in range(n):
                todo.append((d, len(todo), (k, n) if n > 1 else None, m, dict(opts or {}, name=name, seed=SEED)))
        with multiprocessing.Pool(CORES) as pool:
            for r in pool.imap_unordered(work, todo, chunksize=1):
                for k in out:
                    out[k] += r[k]
    return out


PLAN = {  # property -> (aspects, families quick, families thorough, simulation families)
    "C01": ({"behaviour"}, ["k1", "k2", "w1", "o2", "l2", "p2", "n2", "s2", "r2", "g1"], ["h1"], ["xk", "xs"]),
    "C02": ({"s"}, ["k1", "k2", "w1", "o2", "l2", "p2", "n2"], ["h1", "s2"], ["xk"]),
    "C03": ({"f"}, ["k1", "k2", "w1", "o2", "p2", "n2", "g1"], ["h1", "s2"], ["xk"]),
    "C04": ({"b"}, ["k1", "k2", "w1", "o2", "l2", "p2", "n2"], ["h1", "r2"], ["xk"]),
    "C05": ({"t", "b", "behaviour"}, ["r2", "r3", "rl"], [], ["xr"]),
    "C06": ({"agree"}, ["k1", "k2", "w1", "l2", "p2", "n2", "r2", "g1", "h1"], ["s2", "o2"], ["xk", "xr"]),
    "C07": ({"s", "f", "b", "t", "agree", "behaviour"}, ["h1", "hw", "h2"], ["h2t"], ["xh"]),
    "C09": ({"s", "f", "b", "t", "agree", "behaviour"}, ["g1", "g2"], [], ["xg"]),
}
ALWAYS = {"panic", "broken"}


def check(rep, aspects, fams, sims, num):
    aspects = set(aspects) | ALWAYS
    for fam in fams:
        metas = tlc_all(jobs(fam))
        feed(rep, aspects, fam, metas, replay(metas, fam))
    for f in sims:
        metas = tlc_all(simjobs(f, num, SEED))
        feed(rep, aspects, f, metas, replay(metas, f))


def feed(rep, aspects, fam, metas, r):
    c = sum(m["states"] for m in metas if not m["cached"])
    rep.add(states=c, transitions=c, states_of_cached_model_runs=sum(m["states"] for m in metas if m["cached"]),
            traces_validated_against_impl=r["runs"], programs=r["programs"], counters_compared=r["counters"],
            samples=r["samples"], families={})
    rep.cov.setdefault("by_family", {})[fam] = {"programs": r["programs"], "runs": r["runs"],
                                               "model_states": sum(m["states"] for m in metas), "model_cached": all(m["cached"] for m in metas)}
    rep.spec += r["spec"]
    for v in r["viol"]:
        if v["aspect"] in aspects:
            rep.violation(v)


def run(rep):
    aspects, quick, deep, sims = PLAN[rep.prop]
    # a small exhaustive model run in every check, not from the cache
    m = tlc(module="Instr", cfg=cfg_text(dict(consts(FAM["k1"]), PARTS=1, PART=0, FreeDec=3, EMIT=False), INV), name="live", cache=False)
    rep.add(states=m["states"], transitions=m["states"])
    if core.TIER == "thorough":
        check(rep, aspects, quick + deep, sims, 6000)
    else:
        check(rep, aspects, quick, sims, 250)
    rep.cov.pop("families", None)
    rep.cov["exhaustive"] = True
    rep.assume += ["programs beyond the stated bounds are sampled", "node (V8) executes JavaScript correctly",
                   "the renderer writes what the node table means; every original program is run and compared with the model"]


def quick_jobs():
    """the long ones first"""
    fams = {f for _, q, _, _ in PLAN.values() for f in q}
    order = [f for f in BIG if f in fams] + sorted(fams - set(BIG))
    return [j for f in order for j in jobs(f)]
