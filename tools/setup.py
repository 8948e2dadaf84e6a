#!/usr/bin/env python3
"""setup_cmd: builds the harness from /repo and runs the exhaustive model checks whose behaviours
the checks replay (the results are cached under build/, keyed by the specification's text)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mbt"))
import check  # noqa: E402
import core  # noqa: E402

if __name__ == "__main__":
    core.cargo("covh", "covh")
    core.cargo("plugh", "plugh")
    jobs = [j for name in check.MODULES for j in importlib.import_module(name).quick_jobs()]
    for m in core.tlc_all(jobs):
        print("%-8s %9d states %7d lines %6.1fs%s" % (m["name"], m["states"], m["lines"], m["wall"], " (cached)" if m["cached"] else ""))
