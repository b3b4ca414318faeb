"""Shared machinery: building the driver, running it, validating traces with TLC, reporting."""

import atexit
import fcntl
import json
import os
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/vp/venv/bin/python"
TLA = "/opt/veriftools/tla"
TLC_CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something of ours (compiler, TLC, driver protocol) failed: no verdict."""


_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = os.path.realpath(tempfile.mkdtemp(prefix="verif-rtest-"))
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def clean_env(**extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO", "PYTHON", "PYTEST", "FW_"))}
    env.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME=os.environ.get("HOME", "/root"))
    env.update(extra)
    return env


def py_env(**extra):
    return clean_env(PYTHONPATH=f"{REPO}/python", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",
                     PYTHONHASHSEED="0", **extra)


def build_rust():
    """Build the driver from /repo's working tree. The compiler's verdict on /repo is not ours: failing is a tool error."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sys.path.insert(0, os.path.join(VERIF, "harness"))
        import prepare

        prepare.REPO = REPO
        prepare.main(os.path.join(BUILD, "rust"))
        env = clean_env(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0",
                        CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(BUILD, "rust"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            raise ToolError("cargo build failed:\n" + r.stdout[-4000:])
    # A private copy, so that a concurrent build cannot swap the binaries under a running check
    bindir = os.path.join(scratch(), "bin")
    if not os.path.isdir(bindir):
        os.makedirs(bindir)
        for name in ("vh", "fakeworker"):
            shutil.copy2(os.path.join(BUILD, "target", "debug", name), bindir)
    return bindir


def build_full():
    """Build all of rtest, Python extension included, over the stand-ins for the ruff crates.

    Returns a directory with bin/vc, the collection driver, and ext/rtest, the Python package with its extension."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-full"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sys.path.insert(0, os.path.join(VERIF, "harness"))
        import prepare

        prepare.REPO = REPO
        work = os.path.join(BUILD, "full")
        prepare.full(work)
        env = clean_env(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0", PYO3_PYTHON=PY,
                        CARGO_TARGET_DIR=os.path.join(BUILD, "target-full"), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1")
        # One after the other in separate target directories: the two differ in a feature of rtest
        for args, target in ((["-p", "rtest", "--lib", "--features", "extension-module"], "target-full"), (["-p", "vc"], "target-vc")):
            env["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
            r = subprocess.run(["cargo", "build", "--offline", "-q", *args], cwd=work, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if r.returncode != 0:
                raise ToolError("cargo build (with the stand-ins for ruff) failed:\n" + r.stdout[-4000:])
        top = os.path.join(scratch(), "full")
        os.makedirs(os.path.join(top, "bin"))
        os.makedirs(os.path.join(top, "ext", "rtest"))
        shutil.copy2(os.path.join(BUILD, "target-vc", "debug", "vc"), os.path.join(top, "bin"))
        for name in os.listdir(f"{REPO}/python/rtest"):
            if name != "__pycache__" and not name.endswith(".so"):
                os.symlink(f"{REPO}/python/rtest/{name}", os.path.join(top, "ext", "rtest", name))
        shutil.copy2(os.path.join(BUILD, "target-full", "debug", "librtest.so"), os.path.join(top, "ext", "rtest", "_rtest.so"))
    return top


def full_env(top, **extra):
    """The environment in which `python -m rtest` is the rtest just built."""
    return clean_env(PYTHONPATH=os.path.join(top, "ext"), PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",
                     PYTHONHASHSEED="0", RUFF_SHIM_PYTHON=PY, **extra)


class Batch:
    """The batch driver: one JSON answer per JSON op. A hang or a crash of the code under test is an answer too."""

    def __init__(self, bindir, cwd=None, env=None, cmd=None):
        self.cmd = cmd or [os.path.join(bindir, "vh"), "batch"]
        self.cwd = cwd
        self.env = env or clean_env()
        self.p = None

    def _start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.cwd, env=self.env)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""

    def ask(self, op, timeout=60):
        if self.p is None:
            self._start()
        try:
            self.p.stdin.write(json.dumps(op).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            return {"crash": True}
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.close()
                return {"hang": True}
            select.select([self.p.stdout], [], [], left)
            chunk = self.p.stdout.read()
            if chunk is None:
                continue
            if chunk == b"":
                self.close()
                return {"crash": True}
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        answer = json.loads(line)
        if "unsupported" in answer:
            raise ToolError(f"driver does not know {op}")
        return answer

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


# ---------------------------------------------------------------- TLC

_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def tlc(module, cfg=None, env=None, workers="auto", args=(), timeout=800, ok=(0,)):
    """Run TLC on spec/<module>.tla; return (output, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", TLC_CP, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock",
           "-metadir", meta, "-workers", str(workers), "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    e = clean_env(**(env or {}))
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, True)
    text = r.stdout.decode("utf-8", "replace")
    if r.returncode not in ok:
        lines = [x for x in text.split("\n") if not x.startswith(("<<", "Parsing file", "Semantic proc"))]
        at = next((i for i, x in enumerate(lines) if x.startswith("Error:")), 0)
        raise ToolError(f"TLC failed on {module} ({r.returncode}):\n" + "\n".join(x[:300] for x in lines[at:])[:3000])
    found = _STATES.findall(text)
    gen, dist = (int(found[-1][0]), int(found[-1][1])) if found else (0, 0)
    return text, gen, dist


def _unescape(s):
    return json.loads('"' + s + '"')


def printed(text, tag):
    """JSON values printed by PrintT(<<tag, ToJson(x)>>), in an order that does not depend on TLC's threads."""
    out = []
    for m in re.finditer(r'^<< ?"%s",\s+"((?:[^"\\]|\\.)*)" ?>>\s*$' % re.escape(tag), text, re.M):
        out.append(json.loads(_unescape(m.group(1))))
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True))


def design(module, cfg=None, timeout=800):
    """Exhaustive check of a design specification. Returns (text, stats). A violated invariant is our error."""
    t = time.time()
    text, gen, dist = tlc(module, cfg, timeout=timeout)
    return text, {"module": module, "cfg": cfg or f"{module}.cfg", "generated": gen, "distinct": dist,
                  "wall_s": round(time.time() - t, 1)}


def validate(module, traces, timeout=800):
    """Check recorded traces against spec/<module>.tla. Returns (violations, stats).

    A trace is {"id", "cfg": {...}, "ev": [...]}; every event is consumed by one step of the specification, and the
    clauses an event breaks are printed.  violations: list of (trace index, event position from 1, [clauses])."""
    if not traces:
        return [], {"module": module, "generated": 0, "distinct": 0, "traces": 0}
    path = os.path.join(scratch(), f"{module}.ndjson")
    with open(path, "w", encoding="utf-8") as f:
        for tr in traces:
            f.write(json.dumps({"cfg": tr["cfg"], "ev": tr["ev"]}, ensure_ascii=True) + "\n")
    t = time.time()
    text, gen, dist = tlc(module, env={"TRACES": path}, timeout=timeout)
    want = sum(len(tr["ev"]) + 1 for tr in traces)
    if dist != want:
        raise ToolError(f"{module}: {dist} states for {want} expected; some trace was not consumed\n{text[-2000:]}")
    bad = [(v["t"] - 1, v["l"], sorted(v["c"])) for v in printed(text, "VIOL")]
    if len(re.findall('<< ?"VIOL"', text)) != len(bad):
        raise ToolError(f"{module}: unreadable VIOL output")
    bad.sort()
    return bad, {"module": module, "generated": gen, "distinct": dist, "traces": len(traces),
                 "events": want - len(traces), "wall_s": round(time.time() - t, 1)}


# ---------------------------------------------------------------- reporting


def known_findings():
    """finding: property=<id> clause=<clause> key=<scenario key> <what fails>"""
    found = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) clause=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                found.append(m.groups())
    except FileNotFoundError:
        pass
    return found


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(f"{prop}/{seed}/{tier}")
        self.thorough = tier == "thorough"
        self.designs, self.validations = [], []
        self.area = ""
        self.violations = []  # (clause list, scenario, trace, position, area)
        self.samples = []
        self.notes = {}
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def design(self, module, cfg=None):
        text, st = design(module, cfg)
        self.designs.append(st)
        return text

    def validate(self, module, pairs):
        """pairs: list of (scenario, trace). Keeps the violations of this property."""
        if not pairs:
            return []
        traces = [t for _, t in pairs]
        bad, st = validate(module, traces)
        self.validations.append(st)
        mine = []
        for i, pos, clauses in bad:
            own = [c for c in clauses if c.split(".")[0] == self.prop]
            if own:
                mine.append((own, pairs[i][0], traces[i], pos, self.area))
        self.violations.extend(mine)
        for sc, tr in pairs[:: max(1, len(pairs) // 2)][:2]:
            s = json.dumps({"scenario": sc, "trace": tr})
            self.samples.append(json.loads(s) if len(s) < 6000 else s[:3000] + " ...")
        return mine

    def finish(self):
        known = known_findings()
        shown, fresh = set(), []
        for own, sc, tr, pos, area in self.violations:
            hit = None
            for p, clause, key, what in known:
                if p == self.prop and clause in own and key == sc.get("key", "-"):
                    hit = (clause, key, what)
            if hit:
                if hit not in shown:
                    shown.add(hit)
                    print(f"KNOWN-FINDING: property={self.prop} {hit[2]}")
            else:
                fresh.append((own, sc, tr, pos, area))
        gen = sum(d["generated"] for d in self.designs + self.validations)
        dist = sum(d["distinct"] for d in self.designs + self.validations)
        ntr = sum(v["traces"] for v in self.validations)
        cov = {"states": dist, "transitions": gen, "traces_validated_against_impl": ntr, "samples": self.samples[:6],
               "design_specs": self.designs, "trace_specs": self.validations, **self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not ntr:
            raise ToolError("no trace was validated")
        print(f"{self.prop}: {ntr} traces, {dist} distinct states, {ev['wall_s']} s, {len(fresh)} violation(s)")
        if fresh:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            by = {}
            for v in fresh:
                by.setdefault(tuple(v[0]), []).append(v)
            n = 0
            for clauses, vs in sorted(by.items()):
                vs.sort(key=lambda v: len(json.dumps(v[1])))
                own, sc, tr, pos, area = vs[0]
                path = os.path.join(OUT, "replay", f"{self.prop}-{n}.json")
                n += 1
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "area": area, "clauses": own, "position": pos, "scenario": sc, "trace": tr,
                               "replay": f"python3 check.py {self.prop} --replay {path}"}, f, indent=1)
                print(f"  {', '.join(own)}: {len(vs)} trace(s), first at event {pos}")
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0
