"""C01-C03: distribution of tests over workers. Specification: spec/Dist.tla, DistMC.tla."""

import vlib

MODES = ["load", "loadscope", "loadfile", "worksteal", "no"]
FILES = ["test_a.py", "test_A.py", "test_a_.py", "test_a.pyi", "test_b.py", "tests/test_a.py", "tests/test_a.pyx/test_a.py", "test_a.py.py", "a/b/c/test_z.py",
         "t e s t/test_ü.py", "p[1]/test_a.py", "p[2]/test_[x].py", "Test_a.py", "z/test_a.py", "test_0.py", "a-b/test_a.py"]
CLASSES = ["TestA", "Test_A", "testA", "TestA_", "TestB", "TestAB", "Test_a", "test_f", "TestÜ"]
FUNCS = ["test_f", "test_g", "test_ff", "test_", "test_ü"]
CASES = ["", "", "", "1", "a::b", "::", "a]::[b", "x[0]", "[", "]", "é", " ", "a/b.py::TestA::test_f", "1-2", "x::TestA", "TestA::test_f"]


def ident(f, c, func, case):
    return FILES[f] + "::" + (CLASSES[c - 1] + "::" if c else "") + FUNCS[func] + (f"[{CASES[case]}]" if CASES[case] else "")


def scenario(tests, mode, n):
    """tests: list of (file index, class index or 0, id text)"""
    keys = {}
    out = []
    for f, c, text in tests:
        out.append({"k": keys.setdefault(text, len(keys) + 1), "f": f + 1, "c": c, "id": text})
    return {"tests": out, "mode": mode, "n": n}


def from_design(dump, rng):
    """A design scenario, its abstract files, classes and tests given names at random."""
    files = rng.sample(range(len(FILES)), 2)
    cls = rng.sample(range(1, len(CLASSES) + 1), 2)
    names = {}
    tests = []
    for r in dump["in"]:
        if r["k"] not in names:
            while True:
                text = ident(files[r["f"] - 1], cls[r["f"] - 1] if r["c"] else 0, rng.randrange(len(FUNCS)),
                             rng.randrange(len(CASES)))
                if text not in names.values():
                    break
            names[r["k"]] = text
        tests.append((files[r["f"] - 1], cls[r["f"] - 1] if r["c"] else 0, names[r["k"]]))
    return scenario(tests, dump["mode"], dump["n"])


def rand(rng, size):
    nf = rng.choice([1, 1, 2, 3, len(FILES)])
    nc = rng.choice([0, 1, 2, len(CLASSES)])
    files = rng.sample(range(len(FILES)), nf)
    nested = rng.random() < 0.15
    tests = []
    for i in range(size):
        f, c = rng.choice(files), rng.randrange(nc + 1)
        text = ident(f, c, rng.randrange(len(FUNCS)), rng.randrange(len(CASES)))
        if size > 40 and text.endswith("]"):
            text = text[:-1] + f"~{i}]"  # mostly distinct ids in long lists
        elif size > 40:
            text += f"[{i}]"
        if nested and c:
            inner = rng.choice(["", "TestInner::", "TestInner::", "TestX::", "TestX::TestY::", CLASSES[c - 1] + "::"])
            text = text.replace("::" + CLASSES[c - 1] + "::", "::" + CLASSES[c - 1] + "::" + inner, 1)
        tests.append((f, c, text))
    if rng.random() < 0.5:
        tests.sort(key=lambda t: t[2])
    elif tests and rng.random() < 0.3:
        tests += rng.choices(tests, k=rng.randrange(1, 4))
    k = len(tests)
    n = rng.choice([1, 2, 2, 3, 4, 5, 7, 8, 16, 61, 64, 257, max(1, k - 1), max(1, k), k + 1, max(1, k // 2), max(1, k // 3)])
    if k >= 1000:
        n = rng.choice([1, 2, 3, 8, 16])  # the specification steps once per batch
    elif k > 60:
        n = rng.choice([2, 3, 7, 16, 33])
    return scenario(tests, rng.choice(MODES), n)


def many(rng):
    """Many units per worker: files f<i>.py with a few tests each, or many classes of one file."""
    units = rng.choice([9, 10, 13, 17, 20, 25, 31, 33, 40, 50, 64, 65, 90])
    mode = rng.choice(["loadfile", "loadscope", "loadscope"])
    tests = []
    for u in range(units):
        cls = mode == "loadscope" and rng.random() < 0.8
        for j in range(rng.choice([1, 1, 1, 2, 5])):
            name = FILES[u % 3] if cls else f"d{u % 4}/test_m{u}.py"
            f, c = (u % 3, u + 1) if cls else (100 + u, 0)
            tests.append((f, c, f"{name}::" + (f"TestC{u}::" if cls else "") + f"test_{j}[{rng.choice(CASES)}{u}]"))
    if rng.random() < 0.5:
        rng.shuffle(tests)
    return scenario(tests, mode, rng.choice([2, 3, 4, 5, 6, 7, 8, 12]))


def wide(rng):
    """More workers than machines have."""
    k = rng.choice([40, 66, 70, 90, 129])
    mode = rng.choice(MODES)
    tests = [(100 + i, 0, f"d/test_m{i}.py::test_{rng.choice(CASES) and 'x'}") for i in range(k)]
    rng.shuffle(tests)
    return scenario(tests, mode, rng.choice([32, 33, 63, 64, 65, 100, 127, 128, k, k + 1, 1000]))


def execute(batch, sc):
    tokens = {t["id"]: t["k"] for t in sc["tests"]}
    ids = [t["id"] for t in sc["tests"]]
    cfg = {"mode": sc["mode"], "n": sc["n"],
           "in": [{"k": t["k"], "f": t["f"], "c": t["c"]} for t in sc["tests"]]}

    def once():
        a = batch.ask({"op": "distribute", "mode": sc["mode"], "n": sc["n"], "tests": ids})
        return [[tokens.get(x, 0) for x in b] for b in a["batches"]] if "batches" in a else None

    out, again = once(), once()
    if out is None or again is None:
        return {"cfg": cfg, "ev": [{"ev": "fail"}]}
    return {"cfg": cfg, "ev": [{"ev": "batch", "tests": b} for b in out] + [{"ev": "done"}, {"ev": "again", "out": again}]}


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        dumps = vlib.printed(run.design("DistMC", run.pick("DistMC3.cfg", "DistMC4.cfg")), "SCN")
        scenarios = [from_design(d, run.rng) for d in dumps]
        sizes = [run.rng.randrange(0, 13) for _ in range(run.pick(3000, 30000))]
        sizes += [run.rng.randrange(13, 60) for _ in range(run.pick(300, 3000))]
        sizes += [run.rng.choice([100, 128, 150, 255, 256, 257, 300]) for _ in range(run.pick(12, 60))]
        sizes += [run.rng.choice([1000, 1025, 1500]) for _ in range(run.pick(3, 20))]
        scenarios += [rand(run.rng, s) for s in sizes]
        scenarios += [wide(run.rng) for _ in range(run.pick(60, 400))]
        scenarios += [many(run.rng) for _ in range(run.pick(150, 3000))]
        run.notes["scenarios"] = {"from_design": len(dumps), "random": len(sizes), "longest": max(len(s["tests"]) for s in scenarios)}
    batch = vlib.Batch(bindir)
    pairs = [(sc, execute(batch, sc)) for sc in scenarios]
    batch.close()
    run.validate("DistTrace", pairs)
    run.assumptions += ["TLC and its JSON reader", "ids are built by the generator from (file, class, function, case), so which "
                        "file and class an id belongs to is known and not parsed out of the text"]
