"""C16, C17: worker count, distribution mode and environment entries. Specification: spec/Cli.tla, CliMC.tla."""

import os

import procs
import vlib

KEYS = ["A", "B", "KEY", "key", "Ü", "A.B", "a b", "K1", "_", "PYTEST_X", "LONG" * 20, "A-B"]
VALUES = ["", "1", "a=b", "=", "==", "a b", "'q'", '"q"', "é", "日本", "line\nbreak", " lead", "trail ", "$HOME", "%x%", "-x", "x" * 5000, "\t", "a,b", "A=1;B=2",
          "http://x/?a=1&b=2", "\\", "=x", "x=", "end\n", "\n", "\r\n", " ", "a\t", "\u00a0", "'", "a\\"]
INVALID = ["", "NOEQ", "A", "no value", "é"]
NTEXT = ["auto", "logical", "0", "1", "2", "3", "7", "16", "64", "1000", "007", "999999999", "", "x", "3.5", "-1", "AUTO", "Auto", "1x", " 2", "2 ", "auto ",
         "logica", "one", "1e3", "0x10", "99999999999999999999999", "²", "٣", "null", "--", "1,000"]
DIST = ["load", "loadscope", "loadfile", "worksteal", "no", "Load", "", "loads", "each", "loadgroup", "none", "no ", "load,no", "LOADSCOPE", "work-steal"]


def codes(t):
    return [ord(c) for c in t]


def option(text, rng):
    return {"given": True, "text": text, "style": rng.randrange(4)}


def from_design(d, rng):
    def dec(o):
        return {"given": o["given"], "text": "".join(map(chr, o["text"])), "style": rng.randrange(4)}

    return {"n": dec(d["n"]), "max": d["max"], "dist": dec(d["dist"]), "env": ["".join(map(chr, t)) for t in d["env"]],
            "files": rng.choice([[], ["tests"], ["a.py", "b"]]), "shuffle": rng.randrange(1000), "pin": rng.choice([0, 1, 3]), "procs": False}


def rand_env(rng, most):
    env = []
    for _ in range(rng.choice([0, 1, 2, 3, most])):
        env.append(rng.choice(INVALID) if rng.random() < 0.2 else rng.choice(KEYS) + "=" + rng.choice(VALUES))
    return env


def odd_text(rng, good):
    """A valid text, or one with something before, after or within it."""
    t = rng.choice(good)
    if rng.random() < 0.6:
        c = rng.choice(["%", "x", "k", "K", "M", "_", ",", ".", "-", "'", '"', "\t", "\n", " ", "=", ":", "/", "*", "cpu", "a", "0.", "\u00a0", "e", "u", "/2", "th", "\ufeff"])
        i = rng.choice([0, len(t), len(t), rng.randrange(len(t) + 1)])
        t = t[:i] + c + t[i:]
    return t


def rand(rng):
    none = {"given": False, "text": "", "style": 0}
    return {"n": option(rng.choice(NTEXT) if rng.random() < 0.6 else odd_text(rng, ["auto", "logical", "4", "12", "100"]), rng) if rng.random() < 0.8 else none,
            "max": {"given": True, "v": rng.choice([0, 1, 2, 3, 4, 8, 9, 100, 5000])} if rng.random() < 0.6 else {"given": False, "v": 0},
            "dist": option(rng.choice(DIST) if rng.random() < 0.6 else odd_text(rng, DIST[:5]), rng) if rng.random() < 0.6 else none,
            "env": rand_env(rng, 8), "files": rng.choice([[], ["tests"], ["a.py", "b"]]), "shuffle": rng.randrange(1000),
            "pin": rng.choice([0, 1, 3]), "procs": False}


def argv(sc, rng_class):
    parts = []
    if sc["n"]["given"]:
        t = sc["n"]["text"]
        # an empty text or one that starts like an option needs the `=' form, and `-n=x' means x
        eq = t == "" or t[0] in "-="
        parts.append([["--numprocesses=" + t], ["--numprocesses=" + t] if eq else ["--numprocesses", t],
                      ["--numprocesses=" + t] if eq else ["-n", t], ["--numprocesses=" + t] if eq else ["-n" + t]][sc["n"]["style"]])
    if sc["max"]["given"]:
        parts.append(["--maxprocesses", str(sc["max"]["v"])])
    if sc["dist"]["given"]:
        t = sc["dist"]["text"]
        parts.append(["--dist=" + t] if t == "" or sc["dist"]["style"] % 2 else ["--dist", t])
    envs = []
    for k, e in enumerate(sc["env"]):
        envs.append([["--env=" + e], ["--env", e], ["-e", e]][0 if e == "" or e.startswith("-") else (sc["shuffle"] + k) % 3])
    r = rng_class(sc["shuffle"])
    r.shuffle(parts)
    out = list(sc["files"])
    for p in parts:
        out = p + out if r.random() < 0.5 else out + p
    for k, e in enumerate(envs):
        # the order of the entries among themselves is what counts
        out = out + e
    return out


def pinned(bindir, n):
    b = vlib.Batch(bindir)
    if n:
        cpus = sorted(os.sched_getaffinity(0))[:n]
        b.cmd = ["taskset", "-c", ",".join(map(str, cpus)), *b.cmd]
    return b


def visible(e):
    """Entries a process can be given: with a key, without NUL."""
    return "=" not in e or not e.startswith("=")


def check(run, replay=None):
    import random

    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        dumps = vlib.printed(run.design("CliMC", run.pick("CliMC2.cfg", "CliMC3.cfg")), "SCN")
        scenarios = [from_design(d, run.rng) for d in dumps]
        n = run.pick(1500, 15000)
        scenarios += [rand(run.rng) for _ in range(n)]
        np = run.pick(60, 600) if run.prop == "C17" else 0
        for _ in range(np):
            scenarios.append({**rand(run.rng), "env": rand_env(run.rng, 6), "procs": True,
                              "kind": run.rng.choice(["parallel", "parallel", "seq"]), "mode": run.rng.choice(["load", "loadfile", "no", "worksteal"])})
        run.notes["scenarios"] = {"from_design": len(dumps), "random": n, "with_processes": np}
    batches = {p: pinned(bindir, p) for p in (0, 1, 3)}
    cpus = {p: b.ask({"op": "cpus"}) for p, b in batches.items()}
    run.notes["cpus"] = {str(p): c for p, c in cpus.items()}

    launched = [sc for sc in scenarios if sc["procs"]]

    def make(sc, work):
        keys = sorted({e.split("=", 1)[0] for e in sc["env"] if "=" in e and visible(e)})
        pairs = batches[0].ask({"op": "env", "env": [e for e in sc["env"] if visible(e)]}).get("env", [])
        root = os.path.join(work, "root")
        os.makedirs(root)
        config = {"program": os.path.join(bindir, "fakeworker"), "initial": ["-m", "pytest"], "env": pairs, "root": root, "dir": root,
                  "n": 3, "mode": sc["mode"], "subprojects": True, "ids": ["a.py::t1", "b.py::t2", "c.py::t3"], "extra": []}
        return procs.Proc(bindir, sc["kind"], config, {"by": {}, "envkeys": keys}, work)

    results = iter(procs.run_all(make, launched))
    pairs = []
    for sc in scenarios:
        b = batches[sc["pin"]]
        env = [e for e in sc["env"] if visible(e)] if sc["procs"] else sc["env"]
        cfg = {"n": {"given": sc["n"]["given"], "text": codes(sc["n"]["text"])}, "max": sc["max"],
               "dist": {"given": sc["dist"]["given"], "text": codes(sc["dist"]["text"])}, "cpus": cpus[sc["pin"]], "env": [codes(e) for e in env]}
        ev = []
        if sc["procs"]:
            r = next(results)
            if r is None:
                continue
            starts = [e for e in r["events"] if e["ev"] == "start"]
            ev += [{"ev": "proc", "env": [{"k": codes(k), "v": codes(v)} for k, v in sorted(e["env"].items())]} for e in starts]
            ev.append({"ev": "done", "procs": 1})
        else:
            a = b.ask({"op": "args", "argv": argv(sc, random.Random)})
            if "parse" not in a:
                ev.append({"ev": "fail"})
            else:
                ev.append({"ev": "args", "parse": a["parse"], "n_ok": a.get("n_ok", False), "workers": a.get("workers", 0),
                           "dist_ok": a.get("dist_ok", False)})
                if a["parse"]:
                    ev.append({"ev": "env", "v": [codes(e) for e in a["env"]]})
        a = b.ask({"op": "env", "env": env})
        ev.append({"ev": "pairs", "v": [{"k": codes(k), "v": codes(v)} for k, v in a["env"]]} if "env" in a else {"ev": "fail"})
        pairs.append((sc, {"cfg": cfg, "ev": ev}))
    for b in batches.values():
        b.close()
    run.validate("CliTrace", pairs)
    run.assumptions += ["the numbers of physical and logical CPUs are those the num_cpus crate reports, under several CPU affinities"]
