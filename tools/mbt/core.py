"""Shared parts of the checks: building the harness, running TLC, evidence, verdicts."""
import fcntl
import glob
import gzip
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class CheckError(Exception):
    """The check cannot give an answer (exit 2)."""


# ------------------------------------------------------------------ the code under test
def _repo_hash():
    h = hashlib.sha256()
    for base in ("packages", "Cargo.toml", "Cargo.lock", "rust-toolchain", "rust-toolchain.toml", ".cargo"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".lock"))]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    for d, ds, fs in os.walk(os.path.join(VERIF, "harness")):
        ds[:] = sorted(x for x in ds if x != "target")
        for f in sorted(fs):
            h.update(f.encode())
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def cargo(crate, name):
    """Builds harness crate from /repo's working tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    binary = os.path.join(TARGET, "debug", name)
    stamp = os.path.join(BUILD, name + ".stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = _repo_hash()
        if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
            return binary
        # cargo goes by modification times, which copies do not keep in order
        for pat in ("istanbul*", "swc-coverage*", "swc_coverage*", "swc-plugin-coverage*", "swc_plugin_coverage*", "cov*", "plug*"):
            for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-05-06", CARGO_NET_OFFLINE="true",
                   RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0")
        env["RUSTFLAGS"] = "--cfg verif_hooks"
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness", crate), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(binary):
            raise CheckError("the harness does not build:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(want)
    return binary


def covh(mode, requests, threads=CORES):
    """ndjson in, ndjson out, in the order of the requests"""
    binary = cargo("covh", "covh")
    data = "\n".join(json.dumps(q) for q in requests) + "\n"
    r = subprocess.run([binary, mode, str(threads)], input=data, stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError("covh %s ended with %s" % (mode, r.returncode))
    return [json.loads(x) for x in r.stdout.split("\n") if x]


# ------------------------------------------------------------------ TLC
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(tla(x) for x in sorted(v, key=str))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    raise ValueError(v)


def cfg_text(consts, invariants, spec="Spec", properties=(), extra=""):
    t = "CONSTANTS\n" + "".join("%s = %s\n" % (k, tla(v)) for k, v in consts.items())
    t += "SPECIFICATION %s\n" % spec
    if invariants:
        t += "INVARIANTS %s\n" % " ".join(invariants)
    if properties:
        t += "PROPERTIES %s\n" % " ".join(properties)
    return t + "CHECK_DEADLOCK FALSE\n" + extra


def _modules(module):
    """the files of a module and of those it uses"""
    seen, todo = set(), [module]
    while todo:
        f = os.path.join(SPEC, todo.pop() + ".tla")
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        text = open(f).read()
        for m in re.findall(r"(?m)^EXTENDS ([^\n]*(?:,\s*\n[^\n]*)*)", text):
            todo += [x.strip() for x in m.split(",")]
        todo += re.findall(r"\bINSTANCE (\w+)", text)
    return sorted(seen)


def _spec_hash(module, text):
    h = hashlib.sha256(text.encode())
    for f in _modules(module):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
SIMD = re.compile(r"The number of states generated: (\d+)")


def tlc(module, cfg, name, args=(), cache=True, limit=1500, mem="3g"):
    """Runs TLC with one worker; -> {file, states, distinct, wall, cached}.  Output lines that start
    with a quote are kept, gzipped."""
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    key = _spec_hash(module, module + cfg + repr(args))
    out = os.path.join(d, "%s-%s" % (name, key))
    if cache and os.path.exists(out + ".json"):
        m = json.load(open(out + ".json"))
        m["cached"] = True
        return m
    work = os.path.join(d, "w-%s-%s-%d" % (name, key, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in _modules(module):
        shutil.copy(f, work)
    with open(os.path.join(work, "m.cfg"), "w") as f:
        f.write(cfg)
    t0 = time.time()
    cmd = ["timeout", str(limit), "java", "-Xss64m", "-Xmx" + mem, "-XX:+UseSerialGC", "-cp", JAR, "tlc2.TLC", "-workers", "1",
           "-noGenerateSpecTE", "-metadir", os.path.join(work, "st"), "-config", "m.cfg"] + list(args) + [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    rest = []
    tmp = out + ".gz.%d" % os.getpid()
    n = 0
    with gzip.open(tmp, "wb", 1) as g:
        for line in p.stdout:
            if line.startswith(b'"') and line.rstrip().endswith(b'"'):
                g.write(line)
                n += 1
            else:
                rest.append(line.decode(errors="replace"))
    rc = p.wait()
    text = "".join(rest)
    shutil.rmtree(work, ignore_errors=True)
    m = STATES.findall(text)
    meta = {"file": out + ".gz", "wall": round(time.time() - t0, 1), "cached": False, "lines": n, "name": name}
    if m:
        meta["states"], meta["distinct"], left = map(int, m[-1])
    elif SIMD.findall(text):
        meta["states"] = meta["distinct"] = int(SIMD.findall(text)[-1])
    else:
        meta["states"] = meta["distinct"] = 0
    sim = "-simulate" in args
    bad = re.search(r"(?m)^Error:.*", text)
    if bad or not (rc == 0 or (sim and rc == 124)):
        os.unlink(tmp)
        raise CheckError("TLC on %s (%s): exit %s\n%s" % (module, name, rc, text[text.find("Error:"):][:3000] if bad else text[-2000:]))
    os.rename(tmp, out + ".gz")
    if cache:
        with open(out + ".json.tmp", "w") as f:
            json.dump(meta, f)
        os.rename(out + ".json.tmp", out + ".json")
    return meta


def tlc_all(jobs):
    """jobs: list of keyword dicts for tlc; in parallel"""
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(lambda j: tlc(**j), jobs))


def read_lines(meta):
    """The JSON values that TLC printed, with their one letter tag"""
    with gzip.open(meta["file"], "rt", encoding="utf-8") as f:
        for line in f:
            s = json.loads(line)
            yield s[0], json.loads(s[1:])


# ------------------------------------------------------------------ verdicts
def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol, self.spec, self.known_hit = [], [], set()
        self.cov = {}
        self.assume = []

    def violation(self, v):
        """v: dict with at least 'what'.  Known findings are matched by their 'match' members."""
        for k in known():
            if k.get("property") == self.prop and all(v.get(a) == b for a, b in k["match"].items()):
                self.known_hit.add(k["text"])
                return
        self.viol.append(v)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list):
                self.cov.setdefault(k, []).extend(v)
            else:
                self.cov[k] = v

    def done(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if "samples" in self.cov:
            self.cov["samples"] = self.cov["samples"][:5]
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.spec:
            for v in self.spec[:3]:
                print("CHECK ERROR:", json.dumps(v)[:3000])
            print("%d mismatches between the model and the original programs" % len(self.spec))
            if not self.viol:
                return 2
        for t in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.viol:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            self.viol.sort(key=lambda v: len(v.get("source") or json.dumps(v)))
            for i, v in enumerate(self.viol[:3]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + str(v.get("what"))[:600])
                if v.get("source"):
                    print("  program: " + v["source"][:600].replace("\n", "\n  "))
            print("%d violations" % len(self.viol))
            return 1
        print("ok %s: %s" % (self.prop, {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        return 0
