"""C04, C05: subproject grouping and id rewriting. Specification: spec/Subproj.tla, SubprojMC.tla, Paths.tla."""

import os
import shutil

import tree as T
import vlib

TAILS = ["", "::test_f", "::TestA::test_m", "::test_f[a::b]", "::test_f[../x.py]", "::test_f[pyproject.toml]", "::T::t[ü]", "::test_f[/r/a]",
         "::test_f[a\\b]", "::test_f[ x ] ", "::test_f[a\tb\nc]", "::test_f[%20$HOME*?]", "::test_f['\"`]", "::", "::test_f[\\]", "::test_f[--x=1, y]", "::test_f[A]",
         "::test_f[]]", "::test_f[./a/../b//c/]", "::test_f[a.py::test_g]", "::A::B::test_m", "::A::B::C::test_m[x]", "::test_f[a::b::c]", "::A::test_m[::]", "::A::test_m[a/b.py::T::t]", "::A::A::A"]
DESIGN_FILES = [["t.py"], ["a", "t.py"], ["a", "b", "t.py"], ["ab", "t.py"], ["a", "b", "c", "t.py"], ["l.py"], ["a", "l.py"],
                ["l", "t.py"], ["ab", "l", "t.py"], ["ab", "l.py"], ["a", "..", "t.py"], [".", "a", "t.py"],
                ["ab", "..", "a", "b", "t.py"], ["..", "o", "t.py"], ["..", "r", "a", "t.py"], ["a", "none.py"], ["none", "t.py"],
                ["l", "none.py"]]
NAMES = ["a", "ab", "a b", "ä", "a.b", "b", "test", "tests", "pkg", "a-b", "A", "[a]", "x", "a\\b", " a", "b ", "a\tb", "%41", "a:b", "a.py"]


def ids_for(files, rng, dup=0.1):
    ids = []
    for f in files:
        for tail in rng.sample(TAILS, rng.choice([1, 1, 2, 3])):
            ids.append({"f": f, "tail": tail, "times": 2 if rng.random() < dup else 1})
    rng.shuffle(ids)
    return ids


def rand(rng):
    dirs = [["r"], ["o"]]
    for _ in range(rng.randrange(1, 9)):
        base = rng.choice(dirs)
        d = base + [rng.choice(NAMES)]
        if d not in dirs and len(d) < 6:
            dirs.append(d)
    tree = [{"p": d, "kind": "dir", "to": []} for d in dirs]
    used = {tuple(d) for d in dirs}
    files = []

    def add(node):
        if tuple(node["p"]) not in used:
            used.add(tuple(node["p"]))
            tree.append(node)
            return True
        return False

    for d in dirs:
        if rng.random() < 0.45:
            if rng.random() < 0.8:
                add({"p": d + ["pyproject.toml"], "kind": "file", "to": []})
            else:  # a symlink, often to nothing
                add({"p": d + ["pyproject.toml"], "kind": "link", "to": [rng.choice(["pyproject.toml.in", "gone.toml", "t.py", "test_x.py"])]})
        for name in rng.sample(["t.py", "test_x.py", "u.py"], rng.choice([0, 1, 1, 2])):
            if add({"p": d + [name], "kind": "file", "to": []}):
                files.append(d + [name])
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        d = rng.choice(dirs)
        target = rng.choice(files or dirs) if rng.random() < 0.6 else rng.choice(dirs)
        if rng.random() < 0.1:
            target = ["r", "nowhere.py"]
        to = [".."] * len(d) + list(target)
        p = d + [f"l{i}.py" if rng.random() < 0.7 else f"l{i}"]
        if add({"p": p, "kind": "link", "to": to}):
            files.append(p)
            if rng.random() < 0.5:
                files.append(p + ["t.py"])
    ids = []
    for f in files + [rng.choice(dirs) + ["none.py"]]:
        if f[0] == "r":
            g = f[1:]
        else:
            g = [".."] + f
        if rng.random() < 0.15 and len(g) > 1:
            other = rng.choice(dirs)
            if other[0] == "r" and len(other) > 1:
                g = other[1:] + [".."] * (len(other) - 1) + g
        if g:
            ids.append(g)
    return {"tree": tree, "root": ["r"], "ids": ids_for(ids, rng)}


def execute(batch, sc, top):
    shutil.rmtree(top, True)
    os.makedirs(top)
    T.build(top, sc["tree"])
    root = os.path.join(top, *sc["root"])
    texts = ["/".join(i["f"]) + i["tail"] for i in sc["ids"]]
    token = {}
    for i, text in enumerate(texts):
        token.setdefault(text, i + 1)
    ids = [dict(i) for i in sc["ids"]]
    given = [text for text, i in zip(texts, ids) for _ in range(i["times"])]
    times = [given.count(text) if token[text] == i + 1 else 0 for i, text in enumerate(texts)]
    cfg = {"tree": [{k: n[k] for k in ("p", "kind", "to")} for n in sc["tree"]], "root": sc["root"],
           "ids": [{"f": i["f"], "times": t} for i, t in zip(ids, times)]}
    a = batch.ask({"op": "group", "root": root, "ids": given})
    if "groups" not in a:
        return {"cfg": cfg, "ev": [{"ev": "fail"}]}
    ev = []
    for (d, members), rel in zip(a["groups"], a["relative"]):
        dirc = T.comps(top, [], d)
        toks = [token.get(m, 0) for m in members]
        rels = []
        for i, r in enumerate(rel):
            fpart, sep, rest = r.partition("::")
            tok = toks[i] if i < len(toks) else 0
            rels.append({"f": T.rel_comps(top, dirc, fpart), "t": tok if tok and sc["ids"][tok - 1]["tail"] == sep + rest else 0})
        ev.append({"ev": "group", "dir": dirc, "ids": toks, "rel": rels})
    return {"cfg": cfg, "ev": ev + [{"ev": "done"}]}


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        dumps = vlib.printed(run.design("SubprojMC"), "SCN")
        scenarios = [{"tree": d["tree"], "root": d["root"], "ids": ids_for(DESIGN_FILES, run.rng)} for d in dumps]
        n = run.pick(600, 8000)
        scenarios += [rand(run.rng) for _ in range(n)]
        run.notes["scenarios"] = {"from_design": len(dumps), "random": n}
    batch = vlib.Batch(bindir)
    top = os.path.join(vlib.scratch(), "t")
    pairs = [(sc, execute(batch, sc, top)) for sc in scenarios]
    batch.close()
    run.validate("SubprojTrace", pairs)
    run.assumptions += ["the root is given in canonical form, as the CLI takes it from the current directory",
                        "what a path denotes is computed by the specification (spec/Paths.tla), which follows symlinks and `..' like POSIX"]
