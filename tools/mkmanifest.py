#!/usr/bin/env python3
"""Writes MANIFEST.json (claims) from the table below; run after changing it."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INSTR = "TLA+ spec (Lang, Sem, Place, Instr) model-checked with TLC; generated behaviours replayed into the real transform and run in node"
NOTE = ("Exhaustive over all programs of the modelled grammar up to the cost bounds, with every environment answer up to the stated "
        "number of decisions; deeper programs sampled by seeded simulation. Every behaviour is run on the original program (validates "
        "model and renderer) and on the instrumented one, and coverage maps and counters are compared entry by entry. Trusts V8, the "
        "swc parser and code generator, and the renderer.")
CLAIMS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09"):
    CLAIMS[p] = (INSTR, NOTE)
DATA = "TLA+ spec (CovData, Percent) model-checked with TLC; generated histories of operations replayed into istanbul-oxide"
DNOTE = ("Exhaustive over the bounded families of file coverages and histories of operations listed in DESIGN.md, with the algebraic laws "
         "of the property checked as invariants; larger coverages and longer histories by seeded simulation. Every state of every "
         "history is compared with the real structures.")
for p in ("C14", "C15", "C16", "C17", "C18", "C21"):
    CLAIMS[p] = (DATA, DNOTE)
REG = "TLA+ spec (Runtime) model-checked with TLC; generated histories of loads and calls run in node realms with the instrumented files"
CLAIMS["C10"] = (REG, "Exhaustive over the bounded histories listed in DESIGN.md, in four ways of loading; longer ones by seeded simulation.")
HIST = "TLA+ spec (Transforms) model-checked with TLC; generated histories of transforms replayed in one process, on one thread and on several"
CLAIMS["C11"] = (HIST, "Exhaustive over the bounded histories of requests listed in DESIGN.md; longer ones by seeded simulation; thread interleavings as scheduled.")
EX = " Every behaviour TLC prints within the bounds listed in DESIGN.md is replayed into the code built from /repo."
CLAIMS["C08"] = ("TLA+ spec (IgnoreFile) model-checked with TLC; every generated file is put through the real transform", "Exhaustive over files of up to 3-4 items with the comment in every spelling and place." + EX)
CLAIMS["C12"] = ("TLA+ spec (Embed) model-checked with TLC; the coverage data of every generated history of versions is read back from the emitted code in node", "Exhaustive over strings of a hostile alphabet and histories of edits; the hash is compared across all versions." + EX)
CLAIMS["C13"] = ("TLA+ spec (Options) model-checked with TLC; every generated configuration text goes through serde and the plugin's entry point", "The plugin is compiled with a stand-in for swc's host interface (harness/plugh). Pairs of all keys and values exhaustively, larger objects by simulation." + EX)
CLAIMS["C19"] = ("TLA+ spec (Exclude) model-checked with TLC; every generated name and pattern list goes through the plugin's entry point in several spellings", "The plugin is compiled with a stand-in for swc's host interface (harness/plugh)." + EX)
CLAIMS["C20"] = ("TLA+ grammar (Forms) enumerated with TLC; every derived program is transformed under every mode and option, reparsed and compiled", "All programs over the JavaScript, JSX and TypeScript forms up to the cost bounds, deeper ones by seeded simulation." + EX)
CLAIMS["C22"] = ("TLA+ specs (Strict, Modules) model-checked with TLC; generated programs and module graphs run in node before and after the transform", "Exhaustive over nested contexts with directives and module graphs within the bounds." + EX)
PENDING = {}

if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    try:
        import claims
        CLAIMS.update(claims.CLAIMS)
    except ImportError:
        pass
    HOOKS = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": p, "quick_cmd": "python3 tools/mbt/check.py " + p,
                     "thorough_cmd": "python3 tools/mbt/check.py %s thorough" % p,
                     "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]} for p in ids if p in CLAIMS],
         "not_applicable": [{"property": p, "reason": PENDING.get(p, "the check is still being built")} for p in ids if p not in CLAIMS],
         "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by tools/mbt/core.py when it builds the harness)",
                   "source_commits": HOOKS},
         "notes": "TLA+ with TLC; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
