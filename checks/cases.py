"""C25-C27: case decorators of both families. Specifications: spec/Cases.tla, CasesMC.tla."""

import json
import os
import shutil

import vlib
import worker

NAMES = ["a", "b", "c", "arg", "value_1", "request", "cls"]
REASONS = ["", "r1", "ü reason", "later"]


def pool():
    """The texts of the values of lib/runtime/vcases.py, read in a child with the same library."""
    import subprocess

    env = vlib.py_env(VRUN_LOG="/dev/null")
    env["PYTHONPATH"] += ":" + worker.RUNTIME
    r = subprocess.run([vlib.PY, "-c", "import vcases, json; print(json.dumps([x for _, x in vcases.POOL]))"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise vlib.ToolError(r.stderr)
    return json.loads(r.stdout)


def word(s):
    return {"k": "text", "t": [ord(c) for c in s]}


# ---------------------------------------------------------------- programs
# {"cls": are the functions methods, "decs": [dec], "ops": [op], "fns": number of functions}
# dec: {"fam", "names", "nform", "entries": [{"ok", "toks", "txt", "src"}], "box", "call", "ids": [text] or None}


def val(i, texts):
    return {"ok": True, "toks": [i + 1], "txt": texts[i], "src": f"_v.V[{i}]"}


def tup(rng, idx, texts):
    form = rng.choice(["({},)", "[{}]", "({},)"])
    return {"ok": True, "toks": [i + 1 for i in idx], "txt": {"k": "seq", "xs": [texts[i] for i in idx]}, "src": form.format(", ".join(f"_v.V[{i}]" for i in idx))}


def spoilt(rng, n):
    vals = [f"_v.V[{rng.randrange(5)}]" for _ in range(n + rng.choice([-1, 1]))]
    src = rng.choice(["({})".format("".join(v + ", " for v in vals)), "[{}]".format(", ".join(vals)), repr("x" * n), "5", "None",
                      "{" + ", ".join(str(i) for i in range(n)) + "}", "{" + ", ".join(f"{i}: {i}" for i in range(n)) + "}", f"range({n})"])
    return {"ok": False, "toks": [], "txt": word(""), "src": src}


def rand_dec(rng, texts, fam=None, names=None, size=None, wild=0.03):
    fam = fam or rng.choice(["rtest", "rtest", "pytest"])
    names = names or rng.sample(NAMES, rng.choice([1, 1, 1, 2, 2, 3]))
    size = rng.choice([0, 1, 1, 2, 2, 3, 4]) if size is None else size
    n = len(names)
    box = rng.choice(["list", "list", "tuple"])
    if n == 1 and rng.random() < 0.15:
        box = rng.choice(["range", "set", "keys", "frozenset"])
        entries = [val(i, texts) for i in range(size)]
    elif n == 1:
        few = rng.sample(range(len(texts)), 3) + [10, 11, 12]
        entries = [val(rng.choice(few) if rng.random() < 0.7 else rng.randrange(len(texts)), texts) for _ in range(size)]
    else:
        few = [rng.randrange(len(texts)) for _ in range(3)] + [11, 12]
        entries = [tup(rng, [rng.choice(few) for _ in range(n)], texts) for _ in range(size)]
        if entries and rng.random() < wild * 3:
            entries[rng.randrange(len(entries))] = spoilt(rng, n)
    ids = None
    if rng.random() < 0.4 and box in ("list", "tuple"):
        k = len(entries) if fam == "pytest" or rng.random() < 0.6 else rng.randrange(len(entries) + 1)
        ids = [rng.choice(["a", "a_1", "a_2", "", "b", "x", "ü", "1", "a-b"]) for _ in range(k)]
    return {"fam": fam, "names": names, "nform": rng.randrange(9), "entries": entries, "box": box, "call": rng.randrange(5), "ids": ids, "iform": rng.randrange(2)}


def wish_dec(rng, wishes, texts):
    """One decorator whose entries wish for these texts, by explicit ids, by strings, or first the one and then the other."""
    how = rng.choice(["ids", "values", "mixed", "mixed"])
    k = {"ids": len(wishes), "values": 0, "mixed": rng.randrange(len(wishes) + 1)}[how]
    where = {"".join(map(chr, t["t"])): i for i, t in reversed(list(enumerate(texts))) if t["k"] == "text"}
    d = rand_dec(rng, texts, fam=rng.choice(["rtest", "rtest", "rtest", "pytest"]), names=["a"], size=0)
    d["box"] = rng.choice(["list", "tuple"])
    d["entries"] = [val(rng.randrange(len(texts)) if i < k else where[w], texts) for i, w in enumerate(wishes)]
    d["ids"] = wishes[:k] if k else rng.choice([None, []])
    return d


def simulate(p):
    """After each operation: which decorators each function has."""
    fns = {f: {"rtest": [], "pytest": []} for f in range(1, p["fns"] + 1)}
    out = []
    for op in p["ops"]:
        if op["op"] == "decorate":
            fns[op["f"]][p["decs"][op["d"] - 1]["fam"]].append(op["d"])
        elif op["op"] == "wrap":
            fns[op["f"]] = {k: list(v) for k, v in fns[op["from"]].items()}
        out.append({f: list(x["rtest"] or x["pytest"]) for f, x in fns.items()})
    return out


def rand(rng, texts):
    p = {"cls": rng.random() < 0.3, "fns": rng.choice([1, 1, 2, 3]), "decs": [], "ops": []}
    wild = rng.choice([0, 0, 0.1])
    free = {f: set(NAMES) for f in range(1, p["fns"] + 1)}  # names of arguments no decorator of the function has
    total = {f: 1 for f in free}
    for _ in range(rng.choice([1, 2, 3, 4])):
        f = rng.randrange(p["fns"]) + 1
        r = rng.random()
        if r < 0.15 and p["fns"] > 1:
            g = rng.choice([x for x in free if x != f])
            p["ops"].append({"op": "wrap", "f": f, "from": g})
            free[f], total[f] = set(free[g]), total[g]
        elif r < 0.3:
            p["ops"].append({"op": "skip", "f": f, "fam": rng.choice(["rtest", "pytest"]), "r": rng.choice(REASONS), "form": rng.randrange(3)})
        else:
            again = [i for i, d in enumerate(p["decs"], 1) if set(d["names"]) <= free[f] and total[f] * len(d["entries"]) <= 40]
            if again and rng.random() < 0.25:
                i = rng.choice(again)
            elif free[f]:
                names = rng.sample(sorted(free[f]), min(len(free[f]), rng.choice([1, 1, 2, 3])))
                p["decs"].append(rand_dec(rng, texts, names=names, wild=wild))
                i = len(p["decs"])
            else:
                continue
            d = p["decs"][i - 1]
            free[f] -= set(d["names"])
            total[f] *= max(1, len(d["entries"]))
            p["ops"].append({"op": "decorate", "f": f, "d": i})
        if rng.random() < 0.5:
            p["ops"].append({"op": "look"})
    p["ops"] += [{"op": "look"}] * rng.choice([1, 2])
    return p


def ops_program(rng, ops, texts):
    """A sequence of operations of the design. The same argument may be given twice, so every use gets its own decorator."""
    p = {"cls": rng.random() < 0.3, "fns": 2, "decs": [], "ops": []}
    made = {}
    used = {1: [], 2: []}
    for o in ops:
        if o["op"] == "wrap":
            p["ops"].append({"op": "wrap", "f": o["f"], "from": o["from"]})
            used[o["f"]] = list(used[o["from"]])
        else:
            key = (o["d"], o["fam"], used[o["f"]].count(o["d"]))
            used[o["f"]].append(o["d"])
            if key not in made:
                p["decs"].append(rand_dec(rng, texts, fam=o["fam"], names=[f"n{len(p['decs'])}"], size=rng.choice([1, 2, 3]), wild=0))
                made[key] = len(p["decs"])
            p["ops"].append({"op": "decorate", "f": o["f"], "d": made[key]})
        if rng.random() < 0.3:
            p["ops"].append({"op": "look"})
    p["ops"].append({"op": "look"})
    return p


# ---------------------------------------------------------------- rendering


def dec_source(d):
    n = d["names"]
    argnames = [repr(",".join(n)), repr(" " + " , ".join(n)), repr(list(n)), repr(tuple(n)), repr(",\t".join(n)), repr("\n    " + ",\n    ".join(n) + "\n"), repr("\u2003,".join(n)), repr(",".join(n) + ","), repr(", ".join(n) + " , \n")][d["nform"]]
    srcs = [e["src"] for e in d["entries"]]
    k = len(srcs)
    argvalues = {"list": "[" + ", ".join(srcs) + "]", "tuple": "(" + "".join(s + ", " for s in srcs) + ")", "range": f"range({k})",
                 "set": "set(range(%d))" % k, "frozenset": "frozenset(range(%d))" % k, "keys": "{" + ", ".join(f"{i}: 'z'" for i in range(k)) + "}.keys()"}[d["box"]]
    ids = "" if d["ids"] is None else f", ids={d['ids'] if d['iform'] else tuple(d['ids'])!r}"
    if d["fam"] == "rtest":
        args = [f"{argnames}, {argvalues}", f"{argnames}, {argvalues}", f"{argnames}, argvalues={argvalues}", f"argnames={argnames}, argvalues={argvalues}"][d["call"] % 4]
        return f"rtest.mark.cases({args}{ids})"
    args = [f"{argnames}, {argvalues}", f"{argnames}, argvalues={argvalues}", f"argnames={argnames}, argvalues={argvalues}", f"argvalues={argvalues}, argnames={argnames}", f"{argnames}, {argvalues}, False"][d["call"]]
    return f"pytest.mark.parametrize({args}{ids})"


def skip_source(o):
    r = o["r"]
    if o["fam"] == "rtest":
        return [f"rtest.mark.skip({r!r})", f"rtest.mark.skip(reason={r!r})", f"rtest.mark.skip(reason={r!r})"][o["form"]] if r else "rtest.mark.skip()"
    if not r:
        return ["pytest.mark.skip", "pytest.mark.skip()", "pytest.mark.skip(reason='')"][o["form"]]
    return [f"pytest.mark.skip({r!r})", f"pytest.mark.skip(reason={r!r})", f"pytest.mark.skip(reason={r!r})"][o["form"]]


def source(p):
    me = "self, " if p["cls"] else ""
    out = ["import functools, pytest, rtest", "import vcases as _v"]
    for i, d in enumerate(p["decs"], 1):
        out.append(f"_d{i} = _v.dec({i}, {dec_source(d)})")
    for f in range(1, p["fns"] + 1):
        out += [f"def test_f{f}({me}**kw):", f"    _v.body({f}, kw)"]
    for o, now in zip(p["ops"], simulate(p)):
        f = o.get("f")
        if o["op"] == "decorate":
            out += [f"test_f{f} = _d{o['d']}(test_f{f})", f"_v.step({{'ev': 'decorate', 'f': {f}, 'fam': {p['decs'][o['d'] - 1]['fam']!r}, 'd': {o['d']}}})"]
        elif o["op"] == "wrap":
            out += [f"@functools.wraps(test_f{o['from']})", f"def test_f{f}({me}**kw):", f"    _v.body({f}, kw)",
                    f"_v.step({{'ev': 'wrap', 'f': {f}, 'from': {o['from']}}})"]
        elif o["op"] == "skip":
            out += [f"test_f{f} = {skip_source(o)}(test_f{f})", f"_v.step({{'ev': 'skip', 'f': {f}, 'r': {REASONS.index(o['r'])}}})"]
        else:
            out += [f"_v.expand({g}, test_f{g}, {now[g]})" for g in range(1, p["fns"] + 1)]
    if p["cls"]:
        out.append("class TestK:")
        out += [f"    test_f{f} = test_f{f}" for f in range(1, p["fns"] + 1)]
        out.append("del " + ", ".join(f"test_f{f}" for f in range(1, p["fns"] + 1)))
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- traces


def cfg(p, names):
    codes = lambda s: [ord(c) for c in s]  # noqa: E731
    return {"fns": p["fns"], "decs": [{"names": [names.setdefault(n, len(names) + 1) for n in d["names"]], "has": d["ids"] is not None,
                                       "ids": [codes(x) for x in d["ids"] or []],
                                       "entries": [{"ok": e["ok"], "toks": e["toks"], "txt": e["txt"]} for e in d["entries"]]} for d in p["decs"]]}


def trace(p, work, answer):
    names = {}
    c = cfg(p, names)
    args = lambda q: [[names.get(n, 0), v] for n, v in q]  # noqa: E731
    ev = []
    try:
        with open(os.path.join(work, "log"), encoding="utf-8") as f:
            for line in f:
                e = json.loads(line)
                for x in e.get("cases", []):
                    x["args"] = args(x["args"])
                ev.append(e)
    except OSError:
        pass
    got = worker.load_results(os.path.join(work, "res.jsonl"))
    if answer.get("hang") or not got or not got[0]:
        return {"cfg": c, "ev": ev + [{"ev": "lost"}]}
    records = []
    start = "test_c.py::" + ("TestK::" if p["cls"] else "") + "test_f"
    for r in got[1]:
        n = r["nodeid"]
        f, a, case = 0, [], [-1]
        if n.startswith(start) and n[len(start):len(start) + 1].isdigit():
            f, rest = int(n[len(start)]), n[len(start) + 1:]
            case = [ord(ch) for ch in rest[1:-1]] if rest[:1] == "[" and rest[-1:] == "]" and len(rest) > 2 else [] if not rest else [-1]
            if r["stdout"]:
                said = json.loads(r["stdout"])
                a = args(said["args"]) if said["f"] == f else [[0, 0]]
        reason = (r.get("error") or {}).get("reason", "")
        records.append({"f": f, "id": case, "args": a, "outcome": r["outcome"], "r": REASONS.index(reason) if reason in REASONS else -1})
    return {"cfg": c, "ev": ev + [{"ev": "run", "records": records}]}


def run_pairs(programs):
    base = os.path.join(vlib.scratch(), "c")
    out = [None] * len(programs)
    z = worker.Zygotes()

    def do(i, ask):
        work = os.path.join(base, str(i))
        os.makedirs(work)
        with open(os.path.join(work, "test_c.py"), "w", encoding="utf-8") as f:
            f.write(source(programs[i]))
        answer = ask({"cwd": work, "argv": ["--root", work, "--out", os.path.join(work, "res.jsonl"), "--", os.path.join(work, "test_c.py")],
                      "env": {"VRUN_LOG": os.path.join(work, "log")}, "timeout": 60})
        out[i] = (programs[i], trace(programs[i], work, answer))
        shutil.rmtree(work, True)

    try:
        z.run_all(len(programs), do)
    finally:
        z.close()
    return out


def check(run, replay=None):
    rng = run.rng
    texts = pool()
    if replay:
        programs = [replay]
    else:
        text = run.design("CasesMC", run.pick("CasesMC3.cfg", "CasesMC4.cfg"))
        wishes = [["".join(map(chr, x)) for x in w] for w in vlib.printed(text, "IDS")]
        ops = vlib.printed(text, "OPS")
        if not run.thorough:
            ops = rng.sample(ops, 300)
        rng.shuffle(wishes)
        programs = []
        for i in range(0, len(wishes), 6):
            ds = [wish_dec(rng, w, texts) for w in wishes[i: i + 6]]
            programs.append({"cls": rng.random() < 0.3, "fns": len(ds), "decs": ds,
                             "ops": [{"op": "decorate", "f": k, "d": k} for k in range(1, len(ds) + 1)] + [{"op": "look"}] * 2})
        programs += [ops_program(rng, o, texts) for o in ops]
        n = run.pick(400, 6000)
        programs += [rand(rng, texts) for _ in range(n)]
        run.notes["scenarios"] = {"wish_lists": len(wishes), "operation_sequences": len(ops), "random_programs": n}
    run.validate("CasesTrace", run_pairs(programs))
    run.assumptions += ["values whose repr is not stable (default object addresses) are not used", "argvalues are collections, not iterators"]
