"""C12-C14, C18 (and C09 through conc.py): native runs. Specification: spec/NativeRun.tla, NativeRunMC.tla."""

import json
import os
import re
import textwrap

import parrun
import procs
import tree as T
import vlib

BIG = 140_000
OUTCOMES = ["passed", "passed", "passed", "skipped", "failed", "error", "odd"]
FAULTS = ["truncate", "garbage", "garbage_first", "null", "noutcome", "binary", "dir", "missing"]
CLASSES = [["Test*"], [], ["Test*", "*Suite"], ["[A-C]?est*", "x y", "Täst*"]]
FUNCTIONS = [["test*"], [], ["test*", "it_*"], ["check_[!x]*"]]
TEXTS = ["", "", "During handling of the above exception, another exception occurred:", "assert 1 == 2", "  indented", "E   ünïcödé \u2028 x", "========== PASSED 3 passed in 0.00s ==========", "\ttab", "FAILED", "quote \" \\ back"]

# What files of real tests do: (name, source, does it end its process)
REAL = [
    ("passes", "def test_a(): pass\ndef test_b(): print('x')\n", False),
    ("skips", "import rtest\n@rtest.mark.skip('later')\ndef test_a(): assert 0\n", False),
    ("fails", "def test_a(): assert 0, 'no'\ndef test_b(): pass\n", False),
    ("errors", "def test_a(): raise ValueError('ü')\n", False),
    ("exits", "import sys\ndef test_a(): sys.exit(0)\ndef test_b(): pass\n", False),
    ("import_error", "import no_such_module\ndef test_a(): pass\n", False),
    ("import_exit", "raise SystemExit(0)\n", False),
    ("surrogate", "def test_a(): print('\\udc80')\ndef test_b(): assert 0, '\\udc80'\n", False),
    ("noisy", "def test_a(): print('y' * 300000)\ndef test_b():\n    import sys\n    sys.stderr.write('e' * 300000)\n    assert 0\n", False),
    ("raw_fd", "import os\ndef test_a(): os.write(1, b'z' * 200000); os.write(2, b'\\xff' * 200000)\n", False),
    ("closes", "import sys\ndef test_a(): sys.stdout.close()\ndef test_b(): sys.stderr.close()\ndef test_c(): assert 0\n", False),
    ("os_exit_0", "import os\ndef test_a(): pass\ndef test_b(): os._exit(0)\ndef test_c(): assert 0\n", True),
    ("os_exit_1", "import os\ndef test_b(): os._exit(1)\n", True),
    ("os_exit_import", "import os\nos._exit(0)\n", True),
    ("sigkill", "import os\ndef test_a(): pass\ndef test_b(): os.kill(os.getpid(), 9)\n", True),
    ("sigterm_import", "import os\nos.kill(os.getpid(), 15)\n", True),
    ("interrupt", "def test_a(): pass\ndef test_b(): raise KeyboardInterrupt\n", True),
    ("exit_hook", "import atexit, os\natexit.register(os._exit, 3)\ndef test_a(): pass\n", True),
    ("exit_hook_hides", "import atexit, os\natexit.register(os._exit, 0)\ndef test_a(): assert 0\n", False),
]


def results(rng, k, prefix, kinds=OUTCOMES):
    out = []
    cases = rng.random() < 0.3  # the results are those of the cases of one test
    for i in range(k):
        o = rng.choice(kinds)
        name = f"test[{i}]" if cases else f"test_{i}{rng.choice(['', '[a b]', '[ü]', '[PASSED]'])}"
        rec = {"nodeid": f"{prefix}::{name}", "outcome": o, "duration_ms": rng.choice([0.0, 1.5, 250.25])}
        if o == "odd":
            rec["outcome"] = rng.choice(["xfailed", "", "PASSED", "Passed", "pass"])
        if o in ("failed", "error", "skipped") and rng.random() < 0.85:
            e = {}
            if rng.random() < 0.7 and o != "skipped":
                # Some results differ in nothing but their id
                tag = "" if cases and rng.random() < 0.7 else f" #{prefix}.{i}"
                e["traceback"] = "\n".join([f"Traceback{tag}"] + [x and f"{x}{tag}" for x in rng.choices(TEXTS, k=0 if tag == "" else rng.choice([0, 1, 2, 3, 4, 5, 5, 90]))]) + rng.choice(["", "\n"])
            else:
                e["reason"] = f"reason {prefix}.{i}"
            rec["error"] = e
            rec["error_type"] = "AssertionError"
        if rng.random() < 0.3:
            rec["stdout"], rec["stderr"] = "out\nput", "err"
        out.append(rec)
    return out


def base(rng, k):
    return {"mode": "fake", "n": k, "classes": rng.choice(CLASSES), "functions": rng.choice(FUNCTIONS), "prog": True, "barrier": False,
            "early": False, "ranked": False, "root": ["r"]}


def from_design(dump, rng):
    """One file for each worker, with the behaviour and the order of completion of the design scenario."""
    files = []
    for w, kind in enumerate(dump["plan"]):
        one = {"odd": ["odd"], "fails": ["failed", "passed"], "hidden": ["failed"], "errs": ["error"]}.get(kind, ["passed", "skipped"])
        res = results(rng, rng.choice([1, 2, 5]), f"t{w}.py", one)
        if kind == "odd":
            res += results(rng, 1, f"u{w}.py", ["passed"])
        if kind == "fails":
            res += results(rng, 1, f"v{w}.py", ["failed"])
        b = {"ok": {}, "fails": {}, "errs": {}, "hidden": {"exit": 0}, "odd": {"exit": 0}, "silent": {"exit": 1},
             "crash": {"exit": rng.choice([2, 77, 255])}, "killed": {"signal": rng.choice([9, 11, 15])},
             "gone": {"signal": rng.choice([9, 11, 15]), "fault": rng.choice(["missing", "truncate"])},
             "vanished": {"exit": 0, "fault": "missing"}, "cut": {"exit": 0, "fault": rng.choice([f for f in FAULTS if f != "missing"]), "cut": rng.randrange(400)},
             "nostart": {}}[kind]
        files.append({"f": [f"t{w}.py"], "big": kind == "nostart", "plan": {**b, "results": res, "out": parrun.output(rng, 0.3), "err": parrun.output(rng, 0.3), "blank": rng.random() < 0.2,
                      "rank": dump["order"].index(w + 1) if w + 1 in dump["order"] else 99}})
    return {**base(rng, len(files)), "files": files, "ranked": True}


def alone(rng):
    """Runs in which one thing in one file is bad, of every kind and at every place, and everything else is well."""
    for blank in (False, True):
        for bad in ("failed", "error", "odd", *FAULTS):
            for at in (0, 1, 2):
                files = []
                k = rng.choice([1, 2, 3])
                mine = rng.randrange(k)
                for i in range(k):
                    res = results(rng, rng.choice([2, 3, 6]), f"t{i}.py", ["passed", "skipped"])
                    b = {"exit": 0}
                    if i == mine and bad in OUTCOMES:
                        one = results(rng, 1, f"u{i}.py", [bad])
                        res[[0, 1, len(res)][at]:0] = one
                    elif i == mine:
                        b.update(fault=bad, cut=[0, rng.randrange(400), 10 ** 6][at])
                    files.append({"f": [f"t{i}.py"], "big": False, "plan": {**b, "results": res, "rank": rng.randrange(100), "out": parrun.output(rng, 0.1), "err": parrun.output(rng, 0.1),
                                                                            "blank": blank}})
                yield {**base(rng, k), "files": files}
    for kinds in (["failed"], ["error"], OUTCOMES):  # many bad results, in one file and in many
        for parts in (1, 3, 40):
            files = [{"f": [f"t{i}.py"], "big": False, "plan": {"results": results(rng, 320 // parts, f"t{i}.py", kinds), "rank": 0, "out": parrun.output(rng, 0.1), "err": parrun.output(rng, 0.1)}}
                     for i in range(parts)]
            yield {**base(rng, rng.choice([1, 4, parts])), "files": files}


def rand(rng, waits=None):
    k = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 30])
    clean = rng.random() < 0.4
    bad = rng.choice([0, 0, 0.15, 0.6])
    files = []
    for i in range(k):
        res = results(rng, rng.choice([0, 1, 1, 2, 4, 10]) if rng.random() < 0.97 else 1500, f"d/t{i}.py", ["passed", "skipped"] if clean else OUTCOMES)
        b = {}
        if rng.random() < bad:
            b = parrun.fault(rng, 0.6)
            if rng.random() < 0.5:
                b["fault"] = rng.choice(FAULTS)
                b["cut"] = rng.randrange(2000)
                if rng.random() < 0.7:
                    b["exit"] = rng.choice([0, 0, 1])
        name = rng.choice([f"t{i}.py", f"test {i}.py", f"tëst_{i}.py", f"-{i}.py", f"a*[{i}].py"])
        files.append({"f": rng.choice([[], ["d"], ["d", "--root"], ["--"]]) + [name], "big": False,
                      "plan": {**b, "results": res, "rank": rng.randrange(100), "out": parrun.output(rng, 0.2), "err": parrun.output(rng, 0.2), "blank": rng.random() < 0.15}})
    sc = {**base(rng, rng.choice([0, 1, 2, 3, 4, 7, 40])), "files": files}
    if waits is None:
        waits = rng.random() < 0.4
    if waits:
        sc["barrier"], sc["ranked"], sc["early"] = rng.random() < 0.5, rng.random() < 0.7, rng.random() < 0.3
    elif files and rng.random() < 0.08:
        rng.choice(files)["big"] = True
    if rng.random() < 0.03:
        sc["prog"] = False
    return sc


def real(rng, k=None):
    files = []
    deadly = rng.choice([0, 0, 0.3, 1])
    for i in range(k or rng.choice([1, 2, 3, 4])):
        name, src, lost = rng.choice([x for x in REAL if x[2] == (rng.random() < deadly)] or REAL)
        files.append({"f": [f"test_{i}_{name}.py"], "src": src, "lost": lost, "big": False, "plan": {}})
    return {**base(rng, rng.choice([1, 1, 2, 4])), "mode": "real", "files": files, "classes": ["Test*"], "functions": ["test*"]}


WRAPPER = """\
    #!{py}
    import json, os, subprocess, sys
    args = sys.argv[1:]
    log = os.environ["FW_LOG"]
    given = [os.path.join(os.getcwd(), a) for a in args[args.index("--") + 1:]] if "--" in args else []
    out = args[args.index("--out") + 1] if "--out" in args else ""
    def put(**e):
        with open(log, "a") as f:
            f.write(json.dumps({{"pid": os.getpid(), **e}}) + "\\n")
    put(ev="start", argv=args, cwd=os.getcwd(), env={{}}, given=given, out=out)
    code = subprocess.run([{py!r}] + args, stdin=subprocess.DEVNULL).returncode
    records, readable = [], True
    def strict(x):
        raise ValueError(x)
    try:
        with open(out, encoding="utf-8") as f:
            text = f.read()
        for line in text.split("\\n"):
            if line.strip():
                r = json.loads(line, parse_constant=strict)
                assert isinstance(r["nodeid"], str) and isinstance(r["outcome"], str) and r["duration_ms"] >= 0
                records.append(r)
    except Exception:
        readable = False
    put(ev="end", given=given, exit=max(code, 0), signal=max(-code, 0), fault="", real={{"readable": readable, "records": records}})
    if code < 0:
        os.kill(os.getpid(), -code)
    os._exit(code)
    """


def maker(bindir):
    def make(sc, work):
        root = os.path.join(work, "t", *sc["root"])
        os.makedirs(root)
        program = os.path.join(bindir, "fakeworker")
        env = {}
        by = {}
        files = []
        for x in sc["files"]:
            path = os.path.join(root, *x["f"])
            files.append(path + ("x" * BIG if x["big"] else ""))
            if sc["mode"] == "real":
                with open(path, "w", encoding="utf-8") as f:
                    f.write(x["src"])
            plan = {k: v for k, v in x["plan"].items() if k != "rank" or sc["ranked"]}
            by[files[-1]] = {**plan, "nostart": x["big"]}
        if sc["mode"] == "real":
            program = os.path.join(work, "python")
            with open(program, "w") as f:
                f.write(textwrap.dedent(WRAPPER).format(py=vlib.PY))
            os.chmod(program, 0o755)
            env = {k: v for k, v in vlib.py_env().items() if k.startswith(("PYTHON", "PYTEST"))}
        config = {"program": program if sc["prog"] else os.path.join(work, "no-such-program"), "root": root, "n": sc["n"], "files": files,
                  "files_patterns": ["test_*.py"], "classes": sc["classes"], "functions": sc["functions"]}
        plan = {"by": by, "barrier": sc["barrier"], "early": sc["early"], "wait_s": 15, "native": True}
        return procs.Proc(bindir, "native", config, plan, work, timeout=90, env=env)

    return make


OPTS = {"--root": 1, "--out": 1, "--python-classes": 99, "--python-functions": 99}


def parse_argv(args):
    """The worker's command line as its own parser reads it."""
    got = {"module": args[:2] == ["-m", "rtest.worker"], "files": [], "other": False}
    k = 2
    while k < len(args):
        a = args[k]
        k += 1
        if a == "--":
            got["files"] += args[k:]
            break
        if a in OPTS:
            vals = []
            while k < len(args) and len(vals) < OPTS[a] and not args[k].startswith("-"):
                vals.append(args[k])
                k += 1
            if a in got:
                got["other"] = True
            got[a] = vals
        elif a.startswith("-"):
            name, eq, val = a.partition("=")
            if name in OPTS and eq:
                got[name] = [val]
            else:
                got["other"] = True
        else:
            got["files"].append(a)
    return got


def count(records):
    n = {"p": 0, "f": 0, "e": 0, "s": 0, "u": 0, "us": 0}
    for r in records:
        n["us"] += round(r["duration_ms"] * 1000)
        n[{"passed": "p", "failed": "f", "error": "e", "skipped": "s"}.get(r["outcome"], "u")] += 1
    return n


def summary(text, known):
    """What the summary says. known: nodeid -> (token, lines its details must have)"""
    lines = text.split("\n")
    ends = [i for i, x in enumerate(lines) if re.search(r"\b(PASSED|FAILED)\b.* in [\d.]+ ?s", x)]
    if not ends:
        return {"ev": "summary", "present": False}
    end = ends[-1]
    m = re.search(r"\b(PASSED|FAILED)\b(.*) in ([\d.]+) ?s", lines[end])
    counts = {w: int(n) for n, w in re.findall(r"(\d+) (passed|failed|error|skipped)", m.group(2))}
    out = {"ev": "summary", "present": True, "status": m.group(1), "zero": 0 in counts.values(), "ms": round(float(m.group(3)) * 1000),
           **{k[0]: counts.get(k, 0) for k in ("passed", "failed", "error", "skipped")}}
    begin = max((i for i, x in enumerate(lines[:end]) if re.search(r"=\s*SUMMARY\s*=", x)), default=0)
    for name in ("FAILURES", "ERRORS"):
        heads = [i for i in range(begin, end) if re.fullmatch(r"[\s=]*" + name + r":?[\s=]*", lines[i])]
        found = {}
        if heads:
            stop = next((i for i in range(heads[0] + 1, end) if re.fullmatch(r"[\s=]*(FAILURES|ERRORS):?[\s=]*", lines[i])), end)
            at = [(i, lines[i].strip()) for i in range(heads[0] + 1, stop) if lines[i].strip() in known]
            for (i, nid), (j, _) in zip(at, at[1:] + [(stop, "")]):
                block = [x.strip() for x in lines[i + 1: j]]
                pos, ok = 0, True
                for want in known[nid][1]:
                    try:
                        pos = block.index(want, pos) + 1
                    except ValueError:
                        ok = False
                tok, times, good = found.get(nid, (known[nid][0], 0, True))
                found[nid] = (tok, times + 1, good and ok)
        out[name.lower()] = [{"id": t, "times": n, "detail": g} for t, n, g in found.values()]
    return out


def details(r):
    e = r.get("error") or {}
    text = e.get("traceback") if e.get("traceback") is not None else e.get("reason") or ""
    return [x.strip() for x in text.split("\n") if x.strip()]


def trace(sc, r, index):
    top = os.path.join(vlib.scratch(), "p", str(index), "t")
    root = os.path.join(top, *sc["root"])
    paths = {}
    toks = []
    for x in sc["files"]:
        toks.append(paths.setdefault(os.path.join(root, *x["f"]) + ("x" * BIG if x["big"] else ""), len(paths) + 1))
    recs = {os.path.join(root, *x["f"]): x for x in sc["files"]}
    pats = {}
    for p in sc["classes"] + sc["functions"]:
        pats.setdefault(p, len(pats) + 1)
    cfg = {"root": sc["root"], "files": toks, "n": sc["n"], "classes": [pats[p] for p in sc["classes"]], "functions": [pats[p] for p in sc["functions"]],
           "prog": sc["prog"], "big": [t for t, x in zip(toks, sc["files"]) if x["big"]], "lost": [t for t, x in zip(toks, sc["files"]) if x.get("lost")]}
    ev = []
    outs = {}
    known = {}
    for e in r["events"]:
        if e["ev"] == "start":
            a = parse_argv(e["argv"])
            cwd = T.comps(top, [], e["cwd"])
            out = (a.get("--out") or [""])[0]
            ev.append({"ev": "start", "pid": e["pid"], "module": a["module"], "root": T.comps(top, cwd, (a.get("--root") or ["?"])[0]), "cwd": cwd,
                       "out": outs.setdefault(os.path.join(e["cwd"], out), len(outs) + 1) if out else 0,
                       "classes": [pats.get(p, 0) for p in a.get("--python-classes", [])], "functions": [pats.get(p, 0) for p in a.get("--python-functions", [])],
                       "files": [paths.get(os.path.join(e["cwd"], x), 0) for x in a["files"]], "other": a["other"]})
        elif e["ev"] == "end":
            if "real" in e:
                records, readable = e["real"]["records"], e["real"]["readable"]
            else:
                records = [x for g in e["given"] if g in recs for x in recs[g]["plan"].get("results", [])]
                readable = e["fault"] == ""
            for x in records:
                known.setdefault(x["nodeid"], (len(known) + 1, details(x)))
            ev.append({"ev": "end", "pid": e["pid"], "exit": e["exit"], "signal": e["signal"], "readable": readable, **count(records),
                       "fids": [known[x["nodeid"]][0] for x in records if x["outcome"] == "failed"],
                       "eids": [known[x["nodeid"]][0] for x in records if x["outcome"] == "error"]})
        elif e["ev"] == "stuck":
            ev.append({"ev": "stuck"})
        elif e["ev"] == "return":
            ev.append({"ev": "return", "ret": e["ret"]} if "ret" in e else {"ev": "fail"})
    if r["hang"]:
        return {"cfg": cfg, "ev": ev + [{"ev": "hang"}]}
    if not any(e["ev"] == "return" for e in ev):
        return {"cfg": cfg, "ev": ev + [{"ev": "fail"}]}
    ev.append(summary(r["out"].decode("utf-8", "replace"), known))
    return {"cfg": cfg, "ev": ev + [{"ev": "done", "tmp": len(r["tmp"])}]}


def run_pairs(bindir, scenarios, width=6):
    res = procs.run_all(maker(bindir), scenarios, width)
    return [(sc, trace(sc, r, i)) for i, (sc, r) in enumerate(zip(scenarios, res)) if r is not None]


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        dumps = vlib.printed(run.design("NativeRunMC", "NativeRunMC2.cfg"), "SCN")
        if run.thorough:
            dumps += run.rng.sample(vlib.printed(run.design("NativeRunMC", "NativeRunMC3.cfg"), "SCN"), 1500)
        n, m = run.pick(220, 3000), run.pick(30, 250)
        scenarios = [from_design(x, run.rng) for x in dumps] + [rand(run.rng) for _ in range(n)]
        scenarios += list(alone(run.rng))
        scenarios += [{**real(run.rng, 1), "files": [{"f": [f"test_{x[0]}.py"], "src": x[1], "lost": x[2], "big": False, "plan": {}}]} for x in REAL]
        scenarios += [real(run.rng) for _ in range(m)]
        run.notes["scenarios"] = {"from_design": len(dumps), "random": n, "real_workers": m + len(REAL)}
    run.validate("NativeRunTrace", run_pairs(bindir, scenarios))
    run.assumptions += ["most workers are stand-ins that deliver a prescribed results file, or damage it, and end as prescribed; some are the real Python worker",
                        "a worker that cannot be started is one with an argument longer than the system accepts, or an interpreter that does not exist",
                        "node ids of one run are distinct"]
