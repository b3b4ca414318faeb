"""C06-C08, C10 (and C09 through conc.py): runs over pytest processes. Specification: spec/ParRun.tla, ParRunMC.tla."""

import os
import re

import procs
import subproj
import tree as T
import vlib

BIG = 140_000  # longer than the longest argument Linux starts a process with
INITIALS = [["-m", "pytest"], [], ["run", "--flag", "x y", "-m", "pytest"]]
ENVS = [[], [["VK_A", "1"]], [["VK_A", "1"], ["VK_B", "x=y z"], ["VK_A", "2"]], [["VK_C", ""], ["VK_D", "ü\n'\""]],
        [["PYTHONPATH", "/a:/b"], ["PYTEST_ADDOPTS", "-q"]], [["VK_OLD", ""], ["PYTHONPATH", ""]], [["VK_OLD", "new"], ["PYTEST_ADDOPTS", ""], ["LANG", "C"]]]
OLD = {"VK_OLD": "old", "PYTHONPATH": "/old", "PYTEST_ADDOPTS": "-v", "LANG": "C.UTF-8"}  # what the environment of the run has already
EXTRAS = [[], ["-q"], ["-k", "a or b", "--maxfail=1"]]
# What terminals, shells and log filters treat specially
ODD = ["  ", " ", "\t", "\x1b[31m", "\x1b[0m", "\r", "a\n\n\nb", "\u00fc \U0001f389", "\0", "=== Worker 9 === x", "{}", "%s\\n", "\u2028", "\x0c", "\ufeff", "\b",
       "\n", "=" * 20 + " 3 passed in 0.01s " + "=" * 20, "PASSED", "Failed to execute command: "]
MODES = ["load", "loadscope", "loadfile", "worksteal", "no"]


def output(rng, loud=0.7):
    if rng.random() > loud:
        return {"lines": 0}
    big = rng.random() < 0.15
    return {"lines": rng.choice([60, 400]) if big else rng.choice([1, 1, 2, 5]), "width": rng.choice([900, 4000]) if big else rng.choice([0, 8, 60]),
            "nl": rng.random() < 0.7, "bin": rng.random() < 0.2, "pre": rng.choice(ODD) if rng.random() < 0.3 else "",
            "post": rng.choice(ODD) if rng.random() < 0.3 else ""}


def fault(rng, bad=0.3):
    r = rng.random()
    if r > bad:
        return {}
    return rng.choice([{"exit": 1}, {"exit": 1}, {"exit": 2}, {"exit": 3}, {"exit": 4}, {"exit": 5}, {"exit": 77}, {"exit": 255},
                       {"signal": 9}, {"signal": 15}, {"signal": 11}, {"signal": 6}])


def base(rng):
    return {"kind": "parallel", "env": rng.choice(ENVS), "initial": rng.choice(INITIALS), "extra": [], "dir": True, "prog": True, "subs": True,
            "barrier": False, "early": False, "ranked": False, "n": 3, "mode": "load"}


def d(p):
    return {"p": p, "kind": "dir", "to": []}


def f(p):
    return {"p": p, "kind": "file", "to": []}


def from_design(dump, rng):
    """Three workers with the outcomes of the design scenario, in one group, in three, or split 2 + 1."""
    layout = rng.randrange(3)
    tree = [d(["r"]), f(["r", "t.py"])]
    where = [[], [], []]
    if layout:
        where = [["a"], ["b"], []] if layout == 1 else [["a"], ["a"], ["b"]]
        for x in ("a", "b"):
            tree += [d(["r", x]), f(["r", x, "pyproject.toml"]), f(["r", x, "t.py"])]
    ids = []
    for w, outcome in enumerate(dump["plan"]):
        plan = {0: {}, 1: {"exit": 1}, 3: {"exit": 3}, -1: {"signal": rng.choice([9, 15, 11])}, -2: {}}[outcome]
        ids.append({"f": where[w] + ["t.py"], "tail": f"::test_{w}", "big": outcome == -2,
                    "plan": {**plan, "rank": dump["order"].index(w + 1) if w + 1 in dump["order"] else 99, "out": output(rng), "err": output(rng, 0.4)}})
    return {**base(rng), "tree": tree, "root": ["r"], "ids": ids, "mode": rng.choice(["load", "worksteal"]), "ranked": True,
            "early": rng.random() < 0.3}


def rand(rng, waits=None):
    sc = subproj.rand(rng)
    ids = []
    fails = rng.choice([0, 0, 0.1, 0.5, 1])
    for i in sc["ids"][: rng.choice([1, 2, 4, 8, 20])]:
        if i["f"][-1] == "none.py" and rng.random() < 0.5:
            continue
        for _ in range(i["times"]):
            ids.append({"f": i["f"], "tail": i["tail"], "big": False,
                        "plan": {**fault(rng, fails), "rank": rng.randrange(100), "out": output(rng), "err": output(rng, 0.3)}})
    out = {**base(rng), "tree": sc["tree"], "root": ["r"], "ids": ids, "n": rng.choice([0, 1, 2, 2, 3, 5, 12]), "mode": rng.choice(MODES)}
    if waits is None:
        waits = rng.random() < 0.5
    if waits:
        out["barrier"] = rng.random() < 0.5
        out["ranked"] = not out["barrier"] or rng.random() < 0.5
        out["early"] = rng.random() < 0.3
    elif rng.random() < 0.08 and ids:
        rng.choice(ids)["big"] = True
    if rng.random() < 0.03:
        out["prog"] = False
    if rng.random() < 0.15:
        out["subs"] = False
    if rng.random() < 0.05:
        out.update(ids=[], subs=rng.random() < 0.3)
    return out


def long(rng):
    """Very many tests for each worker."""
    tree = [d(["r"]), f(["r", "t.py"]), d(["r", "s"]), f(["r", "s", "t.py"]), f(["r", "s", "pyproject.toml"])]
    ids = [{"f": (["s"] if i % 6 == 0 else []) + ["t.py"], "tail": f"::test_{i:04}", "big": False, "plan": {"out": output(rng, 0), "err": output(rng, 0)}} for i in range(1300)]
    return {**base(rng), "tree": tree, "root": ["r"], "ids": ids, "n": 1, "mode": rng.choice(["load", "loadfile", "worksteal"])}


def many(rng, size=0):
    """More workers than cores, most of them loud."""
    k = size or rng.choice([12, 16, 24])
    loud = 0.2 if size else 0.9
    tree = [d(["r"]), f(["r", "t.py"]), d(["r", "s"]), f(["r", "s", "t.py"]), f(["r", "s", "pyproject.toml"])]
    ids = [{"f": (["s"] if i % 2 else []) + ["t.py"], "tail": f"::test_{i:03}", "big": False,
            "plan": {**fault(rng, 0.1), "rank": rng.randrange(100), "out": output(rng, loud), "err": output(rng, loud)}} for i in range(k)]
    return {**base(rng), "tree": tree, "root": ["r"], "ids": ids, "n": k, "mode": "load", "barrier": rng.random() < 0.5, "ranked": True}


def rand_seq(rng):
    sc = subproj.rand(rng)
    ids = [{"f": i["f"], "tail": i["tail"], "big": False, "plan": {}} for i in sc["ids"][: rng.choice([0, 1, 3, 10])] if i["f"][-1] != "none.py"]
    if ids:
        ids[0]["plan"] = {**fault(rng, 0.6), "out": output(rng), "err": output(rng)}
        if rng.random() < 0.05:
            ids[-1]["big"] = True
    extra = rng.choice(EXTRAS)
    if ids and rng.random() < 0.25:  # arguments that repeat a test, or one another
        some = [texts({"ids": [rng.choice(ids)]})[0] for _ in range(2)]
        extra = rng.choice([some[:1], ["--deselect", some[0]], ["-k", some[0], "-k", some[0]], some, ["", some[0], ""], [some[0] + " "]])
    return {**base(rng), "kind": "seq", "tree": sc["tree"], "root": ["r"], "ids": ids, "extra": extra, "dir": rng.random() < 0.7,
            "prog": rng.random() < 0.95}


def texts(sc):
    return ["/".join(i["f"]) + i["tail"] + ("[" + "x" * BIG + "]" if i["big"] else "") for i in sc["ids"]]


def maker(bindir):
    def make(sc, work):
        top = os.path.join(work, "t")
        os.makedirs(top)
        T.build(top, sc["tree"])
        root = os.path.join(top, *sc["root"])
        by = {}
        for i in sc["ids"]:
            path = os.path.join(root, *i["f"])
            try:
                path = os.path.realpath(path, strict=True)
            except OSError:
                path = os.path.join(root, *[c for c in i["f"] if c != "."])
            plan = {k: v for k, v in i["plan"].items() if k != "rank" or sc["ranked"]}
            by[path + i["tail"]] = {**plan, "nostart": i["big"]}
        config = {"program": os.path.join(bindir, "fakeworker" if sc["prog"] else "no-such-program"), "initial": sc["initial"], "env": sc["env"],
                  "root": root, "dir": root if sc["dir"] else None, "n": sc["n"], "mode": sc["mode"], "subprojects": sc["subs"],
                  "ids": texts(sc), "extra": sc["extra"]}
        plan = {"by": by, "envkeys": sorted({k for k, _ in sc["env"]}), "barrier": sc["barrier"], "early": sc["early"], "wait_s": 15}
        return procs.Proc(bindir, sc["kind"], config, plan, work, timeout=90, env=OLD)

    return make


def trace(sc, r, index):
    work = os.path.join(vlib.scratch(), "p", str(index))
    top = os.path.join(work, "t")
    tails = {}
    names = {}
    for i in sc["ids"]:
        tails.setdefault(i["tail"] + ("[big]" if i["big"] else ""), len(tails) + 1)
    env_tok = {}
    for k, v in sc["env"]:
        env_tok.setdefault(k, len(env_tok) + 1)
        env_tok.setdefault("=" + v, len(env_tok) + 1)
    cfg = {"kind": sc["kind"], "tree": [{k: n[k] for k in ("p", "kind", "to")} for n in sc["tree"]], "root": sc["root"], "n": sc["n"],
           "mode": sc["mode"], "initial": len(sc["initial"]), "extra": len(sc["extra"]), "dir": sc["dir"], "prog": sc["prog"], "subs": sc["subs"],
           "ids": [{"f": i["f"], "t": tails[i["tail"] + ("[big]" if i["big"] else "")], "big": i["big"]} for i in sc["ids"]],
           "env": [{"k": env_tok[k], "v": env_tok["=" + v]} for k, v in sc["env"]]}

    def argv(args, cwd):
        out = []

        def tok(k, i=0, fp=(), t=0):
            out.append({"k": k, "i": i, "f": list(fp), "t": t})

        n = len(sc["initial"])
        pos = 0
        while pos < n and pos < len(args) and args[pos] == sc["initial"][pos]:
            tok("init", pos + 1)
            pos += 1
        rest = args[pos:]
        tail_from = len(rest)
        ex = sc["extra"]
        if ex and rest[len(rest) - len(ex):] == ex:
            tail_from = len(rest) - len(ex)
        k = 0
        while k < tail_from:
            a = rest[k]
            if a == "--rootdir" and k + 1 < tail_from:
                tok("rootdir")
                tok("dir", fp=T.comps(top, cwd, rest[k + 1]))
                k += 2
                continue
            if a.startswith("--rootdir="):
                tok("rootdir")
                tok("dir", fp=T.comps(top, cwd, a[10:]))
                k += 1
                continue
            fp, sep, tl = a.partition("::")
            t = tails.get(sep + tl, 0)
            if a in sc["initial"] or (a in ex and not t) or a.startswith("-"):
                tok("other")
            elif t:
                tok("test", fp=T.rel_comps(top, cwd, fp), t=t)
            else:
                tok("test", fp=[a], t=0)
            k += 1
        for i in range(len(rest) - tail_from):
            tok("extra", i + 1)
        return out

    ev = []
    ends = {}
    for e in r["events"]:
        if e["ev"] == "start":
            cwd = T.comps(top, [], e["cwd"])
            ev.append({"ev": "start", "pid": e["pid"], "cwd": cwd, "argv": argv(e["argv"], cwd),
                       "env": [{"k": env_tok[k], "v": env_tok.get("=" + v, 0)} for k, v in sorted(e["env"].items())]})
        elif e["ev"] == "end":
            ends[e["pid"]] = e
            ev.append({"ev": "end", "pid": e["pid"], "exit": e["exit"], "signal": e["signal"],
                       "out": bool((e["out"] or {}).get("lines")), "err": bool((e["err"] or {}).get("lines"))})
        elif e["ev"] == "stuck":
            ev.append({"ev": "stuck"})
        elif e["ev"] == "return":
            ev.append({"ev": "return", "ret": e["ret"]} if "ret" in e else {"ev": "fail"})
    if r["hang"]:
        return {"cfg": cfg, "ev": ev + [{"ev": "hang"}]}
    if not any(e["ev"] == "return" for e in ev):
        return {"cfg": cfg, "ev": ev + [{"ev": "fail"}]}
    if sc["kind"] == "parallel":
        want = {p: procs.plain(procs.rendered(e["out"], p)).strip("\n") for p, e in ends.items()}
        parts = re.split(rb"=== Worker (\d+) ===\n", r["out"])
        if parts[0].strip():
            ev.append({"ev": "section", "num": -1, "who": -1})
        for num, body in zip(parts[1::2], parts[2::2]):
            text = procs.plain(body).strip("\n")
            who = 0
            if text:
                who = next((p for p, w in want.items() if w == text), -1)
            ev.append({"ev": "section", "num": int(num), "who": who})
        err = procs.plain(r["err"])
        for p, e in ends.items():
            if (e["err"] or {}).get("lines"):
                ev.append({"ev": "errpart", "pid": p, "times": err.count(procs.plain(procs.rendered(e["err"], p)).strip("\n"))})
    return {"cfg": cfg, "ev": ev + [{"ev": "done"}]}


def run_pairs(bindir, scenarios, width=6):
    results = procs.run_all(maker(bindir), scenarios, width)
    return [(sc, trace(sc, r, i)) for i, (sc, r) in enumerate(zip(scenarios, results)) if r is not None]


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    elif run.prop == "C10":
        n = run.pick(250, 2500)
        scenarios = [rand_seq(run.rng) for _ in range(n)]
        run.notes["scenarios"] = {"random": n}
        run.design("ParRunMC")
    else:
        dumps = vlib.printed(run.design("ParRunMC"), "SCN")
        if run.thorough:
            run.design("ParRunMC", "ParRunMC4.cfg")
        else:
            dumps = run.rng.sample(dumps, 160)
        scenarios = [from_design(x, run.rng) for x in dumps]
        n, m = run.pick(160, 2500), run.pick(4, 40)
        scenarios += [rand(run.rng) for _ in range(n)] + [many(run.rng) for _ in range(m)] + ([long(run.rng)] if run.prop == "C06" else [many(run.rng, 130)])
        run.notes["scenarios"] = {"from_design": len(dumps), "random": n, "many_workers": m}
    run.validate("ParRunTrace", run_pairs(bindir, scenarios))
    run.assumptions += ["workers are stand-ins that record how they were started, wait for one another as scheduled, write what they are told and "
                        "end as they are told", "a worker that cannot be started is one with an argument longer than the system accepts, or a "
                        "program that does not exist", "bytes that are not valid UTF-8 may be replaced in relayed output"]
