"""C11: native discovery of test files. Specification: spec/Files.tla, FilesMC.tla, Glob.tla."""

import os
import shutil

import tree
import vlib

FILE_NAMES = ["test_a.py", "test_b.py", "b_test.py", "_test.py", "test_.py", "x.py", "conftest.py", "test_c.txt", "test_d.pyc", "test_d.py.bak",
              ".test_h.py", "Test_a.py", "test_ü.py", "test a.py", "check_x.py", "ab.py", "a.py", "test.py", "tests.py", "__init__.py",
              "test_[x].py", "test-a.py", "spec_b_spec.py", "pytest", "py", "test_e.PY"]
DIR_NAMES = ["a", "b", "sub", "a-b", "ab", ".h", ".git", "__pycache__", "_x", "ü", "sub.py", "test_d.py", "node_modules", "venv", "build",
             "__pycache__x", "a.b", "A", "builds", "dist", "CVS", "cvs", "_darcs", "{arch}", "arch", "x.egg", ".egg", "x.eggs", "venv2",
             "test_e.egg"]
PATTERNS = [["test_*.py", "*_test.py"], ["*"], ["*.py"], ["[tx]*"], ["?.py", "test_a.py"], [], ["check_*"], ["test_[ab].py"], ["test_[!a].py"],
            ["test_[a-c].*"], ["*a*", "*b*"], ["test_*.py", "test_*.py"], ["*_test.py"], ["spec_*_spec.py"], ["*ü*"], ["te?t*"], ["test*", "x.py"],
            [".*"], ["test_a.py"], ["*.txt", "*.pyc"]]


def rand(rng):
    root = ["r"] if rng.random() < 0.8 else [rng.choice([".r", "__pycache__", ".git", "build", "x.egg", "venv"])]
    if rng.random() < 0.2:
        root = [rng.choice([".h", "x"])] + root
    dirs = [root, ["o"]]
    if len(root) > 1:
        dirs.append(root[:-1])
    for _ in range(rng.randrange(0, 9)):
        base = rng.choice(dirs)
        d = base + [rng.choice(DIR_NAMES)]
        if d not in dirs and len(d) < 6:
            dirs.append(d)
    if rng.random() < 0.1:  # a deep chain
        d = root
        for _ in range(rng.choice([6, 12, 40, 80])):
            d = d + [rng.choice(["a", "b"])]
            if d not in dirs:
                dirs.append(d)
    nodes = [{"p": d, "kind": "dir"} for d in dirs]
    used = {tuple(d) for d in dirs}
    files = []
    for d in dirs:
        for name in rng.sample(FILE_NAMES, rng.choice([0, 1, 2, 4, 8])):
            if tuple(d + [name]) not in used:
                used.add(tuple(d + [name]))
                nodes.append({"p": d + [name], "kind": "file"})
                files.append(d + [name])
    linked = []
    if rng.random() < 0.3:
        linked = tree.add_links(rng, nodes, name=lambda i, goal: rng.choice(DIR_NAMES[:-4]) if goal and goal["kind"] == "dir" and rng.random() < 0.5
                                else rng.choice([f"test_l{i}.py", "b_test.py", ".test_l.py", "l"]))
    given = []
    if rng.random() < 0.75:
        below = dirs + files + linked * 2
        hidden = [p for p in dirs + files if p[-1][0] == "."]
        if hidden and rng.random() < 0.25:
            given.append(rng.choice(hidden))
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            given.append(rng.choice(below + [root + ["nothing"]]))
        if rng.random() < 0.3:
            given += rng.choices(given, k=1)
    styles = [rng.choice(["rel", "rel", "abs", "dot", "slash"]) for _ in given]
    return {"root": root, "tree": nodes, "given": given, "styles": styles, "patterns": rng.choice(PATTERNS)}


def spell(top, root, p, style, isdir):
    if p[:len(root)] != root:
        style = "abs"
    if style == "abs":
        return os.path.join(top, *p)
    rel = "/".join(p[len(root):]) or "."
    if style == "dot":
        rel = "./" + rel
    if style == "slash" and isdir:
        rel += "/"
    return rel


def execute(batch, sc, top):
    shutil.rmtree(top, True)
    os.makedirs(top)
    for n in sorted(sc["tree"], key=lambda n: len(n["p"])):
        path = os.path.join(top, *n["p"])
        if n["kind"] == "dir":
            os.makedirs(path, exist_ok=True)
        elif n["kind"] == "file":
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, "w").close()
        else:
            tree.make_link(top, n)
    names = {}

    def path(p):
        return [names.setdefault(c, len(names) + 1) for c in p]

    cfg = {"tree": [{"p": path(n["p"]), "kind": n["kind"], "to": path(n.get("to", []))} for n in sc["tree"]], "root": path(sc["root"]),
           "given": [path(p) for p in sc["given"]], "patterns": [[ord(c) for c in p] for p in sc["patterns"]]}
    dirs = [n["p"] for n in sc["tree"] if n["kind"] == "dir"]
    a = batch.ask({"op": "files", "root": os.path.join(top, *sc["root"]), "patterns": sc["patterns"],
                   "paths": [spell(top, sc["root"], p, s, p in dirs or os.path.isdir(os.path.join(top, *p))) for p, s in zip(sc["given"], sc["styles"])]})
    if "files" not in a:
        ev = [{"ev": "fail"}]
    else:
        out = []
        for f in a["files"]:
            if not f.startswith(top + "/"):
                out.append(path(["<outside>", f]))
            else:
                out.append(path([c for c in f[len(top):].split("/") if c not in ("", ".")]))
        ev = [{"ev": "files", "files": out}]
    cfg["names"] = [[ord(c) for c in n] for n in names]
    return {"cfg": cfg, "ev": ev}


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        text = run.design("FilesMC", run.pick("FilesMC1.cfg", "FilesMC2.cfg"))
        dumps = vlib.printed(text, "SCN")
        dump = vlib.printed(text, "TREE")[0]
        names = ["".join(map(chr, n)) for n in dump["names"]]

        def name(p):
            return [names[i - 1] if i <= len(names) else "missing" for i in p]

        nodes = [{"p": name(n["p"]), "kind": n["kind"]} for n in dump["tree"]]
        scenarios = [{"root": ["r"], "tree": nodes, "given": [name(p) for p in d["given"]],
                      "styles": [run.rng.choice(["rel", "abs", "dot"]) for _ in d["given"]],
                      "patterns": ["".join(map(chr, p)) for p in d["patterns"]]} for d in dumps]
        n = run.pick(1200, 12000)
        scenarios += [rand(run.rng) for _ in range(n)]
        run.notes["scenarios"] = {"from_design": len(dumps), "random": n}
    batch = vlib.Batch(bindir)
    top = os.path.join(vlib.scratch(), "t")
    pairs = [(sc, execute(batch, sc, top)) for sc in scenarios]
    batch.close()
    run.validate("FilesTrace", pairs)
    run.assumptions += ["given paths are spelled without `..'; links do not lead to a directory they are in", "names and patterns are valid Unicode; patterns "
                        "are well formed (no unclosed `[', no `**')", "either order by path components or by text counts as sorted"]
