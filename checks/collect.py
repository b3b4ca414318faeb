"""C32, C33, C40: static collection of tests and its order. Specifications: spec/Collect.tla, CollectMC.tla, InheritMC.tla, Lookup.tla, Tree.tla, Glob.tla."""

import json
import os
import re
import shutil

import tree
import vlib

DEFAULT = {"files": ["test_*.py", "*_test.py"], "classes": ["Test*"], "funcs": ["test*"]}
CLASS_NAMES = ["TestA", "TestD", "TestE", "TestF", "TestB", "TestC", "Test", "Base", "Mixin", "CheckX", "XTest", "test_like", "Testü"]
FUN_NAMES = ["test_a", "test_b", "test_c", "test_d", "testC", "check_d", "helper", "a_test", "test", "test_ü", "_test_p"]
CLASS_PATS = [["Test*"], ["*Test", "Test*"], ["Check?*"], ["*"], ["Test[AB]"], ["Base", "Mixin"]]
FUN_PATS = [["test*"], ["check_*", "test_*"], ["*_test"], ["test_[ab]"], ["test_?"], ["*test*"]]
FILE_PATS = [["test_*.py", "*_test.py"], ["*.py"], ["*"], ["test_*", "check_*"], ["test_[a-m]*.py"], ["*_test.py", "x.py"]]
LEFT_OUT = ["build", ".git", "venv", "node_modules", "x.egg", "__pycache__", ".egg", "{arch}", "dist", "CVS", "_darcs"]
STANDARD = ["email", "json", "test", "code", "http"]  # names of standard modules
PREAMBLE = ["import abc", "import pytest, rtest", "from typing import Generic, TypeVar", 'T = TypeVar("T")', "def deco(f): return f"]
BAD = ["def broken(:\n", "class TestX(:\n    pass\n", "x = = 1\n", "def test_a():\nreturn\n", "\udcff\udcfe\n", "x = '\udc80'\n"]


# ---------------------------------------------------------------- Python sources


def consistent(classes):
    """Drop bases until Python accepts every class."""
    made = []
    for c in classes:
        while True:
            try:
                made.append(type("C", tuple(made[b] for b in c["bases"]) or (object,), {}))
                break
            except TypeError:
                c["bases"].pop()


def method(rng, name, tag, indent, mark):
    pad = "    " * indent
    out = []
    if rng.random() < 0.15:
        out.append(f"{pad}# def test_comment(): pass")
    if tag:
        out.append(f'{pad}@{mark}("v", ["t{tag}"])')
    elif rng.random() < 0.1:
        out.append(f"{pad}@deco")
    args = (["self"] if indent else []) + (["v"] if tag else [])
    head = "async def" if rng.random() < 0.1 else "def"
    out.append(f"{pad}{head} {name}({', '.join(args)}):")
    body = rng.choice(["pass", "assert True", "x = 'def test_text(): pass'", '"""class TestDoc: pass"""', "def test_inner(): pass", "..."])
    out.append(f"{pad}    {body}")
    return out


VALUES = ["None", "3", "-1.5", "'x'", "b'x'", "[1]", "(1, 2)", "{}", "{1}", "True"]


def step(rng, s, indent, mark):
    """The lines of one thing that a body does to a name."""
    n, kind, ref = s
    pad = "    " * indent
    if kind == "fun":
        return method(rng, n, ref, indent, mark)
    if kind == "del":
        return [f"{pad}del {n}"]
    if kind == "alias":
        if n == ref:
            return [f"{pad}{n} = {rng.choice(['deco({0})', '{0}', 'pytest.mark.slow({0})']).format(n)}"]
        return [f"{pad}{n} = {ref}"]
    args = "self" if indent else ""
    value = rng.choice(VALUES)
    return rng.choice([[f"{pad}{n} = {value}"], [f"{pad}{n}: object = {value}"], [f"{pad}X_{n} = {n} = {value}"], [f"{pad}class {n}:", f"{pad}    pass"],
                       [f"{pad}@pytest.fixture", f"{pad}def {n}({args}):", f"{pad}    return 1"],
                       [f"{pad}@pytest.fixture(scope='module')", f"{pad}async def {n}({args}):", f"{pad}    yield 1"],
                       [f"{pad}@property", f"{pad}def {n}({args}):", f"{pad}    return 1"] if indent else [f"{pad}{n} = {value}"]])


def steps(rng, names, tag, outer=()):
    """What a body does to these names, each [name, kind, tag or name]."""
    out, bound = [], []
    for n in names:
        r = rng.random()
        known = bound + [o for o in outer if o not in bound and o != n]  # n = deco(n) is only understood of an own n
        if r < 0.08:
            out.append([n, "other", 0])
        elif r < 0.16 and known:
            out.append([n, "alias", rng.choice(known)])
        elif r < 0.20 and n in bound:
            out.append([n, "del", 0])
            bound.remove(n)
            continue
        else:
            out.append([n, "fun", tag()])
        if n not in bound:
            bound.append(n)
    return out


class Sources:
    """Places modules in a tree and writes their sources."""

    def __init__(self, rng, root, homes, packages, pythonpath):
        self.rng, self.root, self.homes, self.packages, self.pythonpath = rng, root, homes, packages, pythonpath
        self.reexports = {}  # package directory -> list of (module path, class name, name)

    def import_dir(self, p):
        d = p[:-1]
        while tuple(d) in self.packages:
            d = d[:-1]
        return d

    @staticmethod
    def dotted(base, p):
        rel = p[len(base):-1] + ([] if p[-1] == "__init__.py" else [p[-1][:-3]])
        return rel if rel and all(x.isidentifier() for x in rel) and rel[0] not in LEFT_OUT + STANDARD else None  # so is venv

    def group(self, p):
        """The top package of a file in packages, otherwise the file."""
        return tuple(p[:len(self.import_dir(p)) + 1])

    def spellings(self, src, dst):
        """Import paths (base, level, names) that lead from the file src to the module dst.

        A module has one name only: under two names, Python would have two modules with different classes."""
        out = []
        fixed = self.base.get(self.group(dst))
        top = self.import_dir(src)
        for base in (self.root, self.pythonpath) + ((top,) if tuple(src) not in self.shared else ()):
            if dst[:len(base)] == base and self.dotted(base, dst) and fixed in (None, base):
                out.append((base, 0, self.dotted(base, dst)))
        here = src[:-1]
        if tuple(here) in self.packages and dst[:len(top) + 1] == here[:len(top) + 1] and fixed in (None, top):
            up = 1
            while dst[:len(here)] != here:
                here, up = here[:-1], up + 1
            rel = self.dotted(here, dst)
            if len(here) > len(top) and (rel or dst == here + ["__init__.py"]):
                out.append((top, up, rel or []))
        return out

    def use(self, src, dst, name, taken):
        """An import statement in src and the expression that names the class of dst."""
        rng = self.rng
        ways = self.spellings(src, dst)
        if not ways:
            return None
        base, level, path = rng.choice(ways)
        self.base[self.group(dst)] = base
        dots = "." * level

        def fresh(n):
            while n in taken:
                n = f"{n}_{rng.randrange(1000)}"
            taken.add(n)
            return n

        def frm(pkg, n):
            local = n if n not in taken and rng.random() < 0.6 else fresh(f"X{n}")
            taken.add(local)
            stmt = f"from {dots}{'.'.join(pkg)} import {n}" + (f" as {local}" if local != n else "")
            if rng.random() < 0.2:
                stmt = f"from {dots}{'.'.join(pkg)} import ({n}{' as ' + local if local != n else ''},)"
            return stmt, local

        styles = ["class"]
        if path:
            if level == 0:
                styles += ["module", "alias"]
            if len(path) > 1 or level:
                styles += ["member"]
        pkg_dir = dst[:-1]
        if dst[-1] != "__init__.py" and tuple(pkg_dir) in self.packages and path and tuple(pkg_dir + ["__init__.py"]) not in self.taken_inits \
                and pkg_dir != src[:-1]:
            styles += ["reexport", "reexport"]
        style = rng.choice(styles)
        if style == "class":
            return frm(path, name)
        if style == "module" and path[0] not in taken:
            self.plain.setdefault(tuple(src), set()).add(path[0])
            return "import " + ".".join(path), ".".join(path) + "." + name
        if style in ("module", "alias"):
            q = fresh("q")
            return f"import {'.'.join(path)} as {q}", f"{q}.{name}"
        if style == "member":
            stmt, local = frm(path[:-1], path[-1])
            return stmt, f"{local}.{name}"
        exported = rng.choice([name, f"E{name}"])
        lines = self.reexports.setdefault(tuple(pkg_dir), {})
        if lines.setdefault(exported, (dst, name)) != (dst, name):
            return frm(path, name)
        return frm(path[:-1], exported)

    def share(self, classes):
        """The files that are imported from files with another import directory: they cannot rely on their own."""
        members = {}
        for p in self.homes:
            members.setdefault(self.group(p), []).append(tuple(p))
        uses = {}
        for c in classes:
            for b in c["bases"]:
                uses.setdefault(tuple(self.homes[c["m"]]), set()).add(self.group(self.homes[classes[b]["m"]]))
        self.shared = set()
        for start in uses:
            todo, seen = [start], {start}
            while todo:
                for g in uses.get(todo.pop(), ()):
                    for x in members[g]:
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
            self.shared |= {x for x in seen if self.import_dir(list(x)) != self.import_dir(list(start))}

    def write(self, mods, classes):
        """The text of every module; bases that cannot be imported are dropped from the classes."""
        self.taken_inits = {tuple(p) for p in self.homes if p[-1] == "__init__.py"}
        self.base = {}
        self.share(classes)
        self.plain = {}
        texts = [None] * len(mods)
        rng = self.rng
        for m, mod in enumerate(mods):
            if mod["bad"]:
                texts[m] = mod["text"]
                continue
            src = self.homes[m]
            own = [c for c in classes if c["m"] == m]
            taken = {c["n"] for c in own} | {f[0] for f in mod["funcs"]} | {"v", "deco", "pytest", "rtest"}
            imports, chunks = [], []
            mark = rng.choice(["pytest.mark.parametrize", "rtest.mark.cases"])
            for f, where in zip(mod["funcs"], mod["at"]):
                chunks.append((where, step(rng, f, 0, mark)))
            for i, c in enumerate(own):
                names = []
                for b in list(c["bases"]):
                    base = classes[b]
                    if base["m"] == m:
                        names.append(base["n"])
                        continue
                    got = self.use(src, self.homes[base["m"]], base["n"], taken)
                    if got is None:
                        c["bases"].remove(b)
                        continue
                    imports.append(got[0])
                    names.append(got[1])
                r = rng.random()
                if r < 0.08:
                    names.append("metaclass=abc.ABCMeta")
                elif r < 0.16:
                    names.append("object")
                elif r < 0.22:
                    names.append("Generic[T]")
                head = f"class {c['n']}" + (f"({', '.join(names)})" if names or rng.random() < 0.2 else "") + ":"
                body = []
                if rng.random() < 0.2:
                    body.append('    """def test_doc(self): pass"""')
                members = [step(rng, a, 1, mark) for a in c["attrs"]]
                if c["init"]:
                    members.insert(rng.randrange(len(members) + 1), ["    def __init__(self, x=1):", "        pass"])
                for x in members:
                    body += x
                if not body:
                    body.append("    pass")
                chunks.append((i + 0.5, [head] + body))
            lines = PREAMBLE + imports
            for _, x in sorted(chunks, key=lambda x: x[0]):
                lines += x
            texts[m] = "\n".join(lines) + "\n"
        return texts


def finish(rng, mods, classes, homes, packages, root, pythonpath):
    """Sources for the modules; returns (texts, extra files)."""
    consistent(classes)
    s = Sources(rng, root, homes, packages, pythonpath)
    texts = s.write(mods, classes)
    consistent_again = json.dumps(classes)
    consistent(classes)
    if json.dumps(classes) != consistent_again:
        return None
    extra = {}
    for d in sorted(packages):
        init = list(d) + ["__init__.py"]
        if init in homes:
            continue
        lines = []
        for exported, (dst, name) in s.reexports.get(d, {}).items():
            mod = dst[-1][:-3]
            lines.append(f"from .{mod} import {name}" + (f" as {exported}" if exported != name else ""))
        extra[tuple(init)] = "\n".join(lines) + "\n"
    return texts, extra


def lineage(classes, k):
    out = {k}
    for b in classes[k]["bases"]:
        out |= lineage(classes, b)
    return out


def rand(rng, hierarchy=None):
    root = ["r"]
    pythonpath = ["pp"]
    plain = [["r"], ["r", "ta"], ["r", "ta", "tb"], ["r", "tc"] if rng.random() < 0.7 else ["r", rng.choice(STANDARD)]]
    packages = {("r", "pka"), ("r", "pka", "sub"), ("r", "pkb"), ("r", "ta", "pkc"), ("r", "ta", "pkc", "deep")}
    odd = [["r", rng.choice(STANDARD)]] * 2 + [["r", rng.choice(LEFT_OUT)], ["r", "ta", rng.choice(LEFT_OUT)], ["o"]]
    packages = {p for p in sorted(packages) if rng.random() < 0.8}
    packages = {p for p in packages if p in packages and (p != ("r", "pka", "sub") or ("r", "pka") in packages)
                and (p != ("r", "ta", "pkc", "deep") or ("r", "ta", "pkc") in packages)}
    nlib, ntest = rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 5])
    homes, used = [], set()

    def place(dirs, names):
        for _ in range(20):
            p = list(rng.choice(dirs)) + [rng.choice(names)]
            if tuple(p) not in used:
                used.add(tuple(p))
                return p
        p = list(dirs[0]) + [f"m{len(used)}_test.py"]
        used.add(tuple(p))
        return p

    pk = [list(p) for p in sorted(packages)]
    for i in range(nlib):
        homes.append(place(plain + pk * 2 + [pythonpath], [f"lib{i}.py"]))
    if pk and nlib and rng.random() < 0.25:
        d = rng.choice(pk)
        used.discard(tuple(homes[-1]))
        homes[-1] = d + ["__init__.py"]
        used.add(tuple(homes[-1]))
    for i in range(ntest):
        dirs = plain * 2 + pk * 2 + odd
        homes.append(place(dirs, [f"test_m{i}.py", f"test_m{i}.py", f"m{i}_test.py", f"check_{i}.py", f"x{i}.py", f".h{i}_test.py" if rng.random() < 0.3 else f"test_n{i}.py"]))
    mods = []
    for i in range(len(homes)):
        bad = rng.random() < 0.08
        names = [] if bad else [rng.choice(FUN_NAMES) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        funcs = steps(rng, names, lambda: rng.choice([0, 0, 0, 1, 2]))
        mods.append({"bad": bad, "funcs": funcs, "at": sorted(rng.random() * 5 for _ in funcs)})
        if bad:
            mods[-1]["text"] = rng.choice(BAD)
    classes = []
    n = len(hierarchy) if hierarchy else rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
    at = sorted(rng.randrange(len(homes)) for _ in range(n))
    if hierarchy:
        at[-1] = max(at[-1], nlib)
    tag = [2]

    def fresh():
        tag[0] += 1
        return rng.choice([0, tag[0], tag[0]])

    for k in range(n):
        mod = mods[at[k]]
        nth = at[:k].count(at[k])
        outer = [f[0] for f, where in zip(mod["funcs"], mod["at"]) if f[1] == "fun" and where < nth and [g[0] for g in mod["funcs"]].count(f[0]) == 1]
        names = [rng.choice(FUN_NAMES[:2] if hierarchy and rng.random() < 0.8 else FUN_NAMES) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        attrs = steps(rng, names, fresh, outer)
        if hierarchy:
            bases = list(hierarchy[k])
        else:
            bases = rng.sample(range(k), min(k, rng.choice([0, 0, 1, 1, 1, 2, 3])))
        name = rng.choice(CLASS_NAMES)
        while any(c["m"] == at[k] and c["n"] == name for c in classes):
            name = rng.choice(["Test", "Base"]) + str(rng.randrange(1000))
        classes.append({"m": at[k], "n": name, "init": rng.random() < 0.08, "attrs": attrs, "bases": bases})
    for k, c in enumerate(classes):
        if mods[c["m"]]["bad"]:
            c.update(init=False, attrs=[], bases=[])
    # Sometimes an unused class is defined again
    for k in range(n):
        if rng.random() < 0.1 and not any(k in c["bases"] for c in classes) and not mods[classes[k]["m"]]["bad"]:
            classes.append(dict(classes[k], attrs=[[rng.choice(FUN_NAMES), "fun", 0]], init=rng.random() < 0.1))
    got = finish(rng, mods, classes, homes, packages, root, pythonpath)
    if got is None:
        return rand(rng, hierarchy)
    texts, extra = got
    for k, c in enumerate(classes):
        line = lineage(classes, k)
        if any(classes[j]["init"] for j in line) and any(mods[classes[j]["m"]]["bad"] for j in line):
            return rand(rng, hierarchy)
    dirs = {tuple(p[:i]) for p in homes + [list(e) for e in extra] for i in range(1, len(p))} | {("r",), ("pp",), ("o",)}
    nodes = [{"p": list(d), "kind": "dir", "mod": -1, "src": ""} for d in sorted(dirs)]
    empty = len(mods)
    mods.append({"bad": False, "funcs": []})
    for p, t, m in zip(homes, texts, range(len(mods))):
        nodes.append({"p": p, "kind": "file", "mod": m, "src": t})
    for p, t in extra.items():
        nodes.append({"p": list(p), "kind": "file", "mod": empty, "src": t})
    if rng.random() < 0.3:  # files that are no Python files
        d = list(rng.choice(sorted(dirs)))
        for name in rng.sample(["test_data.txt", "test_notes", "test_x.pyc", "README_test.md"], 2):
            nodes.append({"p": d + [name], "kind": "file", "mod": empty, "src": "not python at all (\n"})
    ini = {}
    for key, pats in (("files", FILE_PATS), ("classes", CLASS_PATS), ("funcs", FUN_PATS)):
        if rng.random() < 0.25:
            ini[key] = rng.choice(pats)
    linked = []
    if rng.random() < 0.25:
        def alone(n):
            return n["p"][0] != "pp" and (n["kind"] == "dir" or n["p"][-1].endswith(".py")) and not any(
                x["p"][:len(n["p"])] == n["p"] and re.match("(from|import) ", line) and line not in PREAMBLE
                for x in nodes for line in x.get("src", "").split("\n"))

        linked = tree.add_links(rng, nodes, alone, lambda i, goal: rng.choice([f"ln{i}", "ln", "build"]) if not goal or goal["kind"] == "dir"
                                else rng.choice([f"test_ln{i}.py", "ln_test.py", f"xl{i}.py"]))
    below = [n["p"] for n in nodes if n["kind"] != "link" and (n["p"][0] != "pp" or rng.random() < 0.2)] + linked * 2
    given = []
    if rng.random() < 0.6:
        given = [rng.choice(below) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        if rng.random() < 0.1:
            given.insert(rng.randrange(len(given) + 1), ["r", "nothing", "here"][:rng.choice([2, 3])])
    testpaths = []
    if rng.random() < 0.25:
        testpaths = [n["p"] for n in rng.sample(nodes, min(len(nodes), rng.choice([1, 2, 3]))) if n["p"][0] == "r" and n["kind"] != "link"]
    return {"tree": nodes, "given": given, "styles": [rng.choice(["rel", "rel", "abs", "dot", "slash", "twice", "inner"]) for _ in given],
            "testpaths": testpaths, "ini": ini, "again": rng.random() < 0.3, "mods": [{"bad": m["bad"], "funcs": m["funcs"]} for m in mods], "classes": classes}


# ---------------------------------------------------------------- running the real collection


def spell(top, p, style, isdir):
    if p[0] != "r" or style == "abs":
        return os.path.join(top, *p)
    rel = "/".join(p[1:]) or "."
    if style == "dot":
        return "./" + rel
    if style == "slash" and isdir:
        return rel + "/"
    if style == "twice":
        return rel.replace("/", "//") if "/" in rel else rel
    if style == "inner":
        return rel.replace("/", "/./") if "/" in rel else rel
    return rel


def toml_list(xs):
    return "[" + ", ".join(json.dumps(x) for x in xs) + "]"


def lay_out(sc, top, backwards=False):
    for n in sorted(sc["tree"], key=lambda n: len(n["p"]))[::-1 if backwards else 1]:
        path = os.path.join(top, *n["p"])
        if n["kind"] == "dir":
            os.makedirs(path, exist_ok=True)
        elif n["kind"] == "link":
            tree.make_link(top, n)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(n["src"].encode("utf-8", "surrogateescape"))
    lines = []
    for key, opt in (("files", "python_files"), ("classes", "python_classes"), ("funcs", "python_functions")):
        if key in sc["ini"]:
            lines.append(f"{opt} = {toml_list(sc['ini'][key])}")
    if sc["testpaths"]:
        lines.append("testpaths = " + toml_list(["/".join(p[1:]) or "." for p in sc["testpaths"]]))
    if lines or sc.get("toml"):
        with open(os.path.join(top, "r", "pyproject.toml"), "w") as f:
            f.write("[tool.pytest.ini_options]\n" + "\n".join(lines) + "\n")


class Names:
    """Numbers for names, and the configuration that the specification reads."""

    def __init__(self):
        self.table = {}

    def num(self, s):
        return self.table.setdefault(s, len(self.table) + 1)

    def path(self, p):
        return [self.num(c) for c in p]

    def chars(self):
        return [[ord(c) for c in n] for n in self.table]


def config(sc, nm):
    def names(q):
        return [{"n": nm.num(n), "kind": k, "ref": nm.num(r) if k == "alias" else r} for n, k, r in q]

    pats = {k: [[ord(c) for c in p] for p in sc["ini"].get(k, DEFAULT[k])] for k in DEFAULT}
    return {"tree": [{"p": nm.path(n["p"]), "kind": n["kind"], "mod": n.get("mod", -1) + 1, "to": nm.path(n.get("to", []))} for n in sc["tree"]], "root": nm.path(["r"]),
            "given": [nm.path(p) for p in sc["given"]], "testpaths": [nm.path(p) for p in sc["testpaths"]],
            "files": pats["files"], "classpats": pats["classes"], "funcpats": pats["funcs"],
            "mods": [{"bad": m["bad"], "funcs": names(m["funcs"])} for m in sc["mods"]],
            "classes": [{"m": c["m"] + 1, "n": nm.num(c["n"]), "init": c["init"], "bases": [b + 1 for b in c["bases"]],
                         "attrs": names(c["attrs"])} for c in sc["classes"]]}


def node(top, text, nm):
    """The path of a node id: {"abs", "p"}."""
    if text.startswith(top + "/"):
        return {"abs": True, "p": nm.path(text[len(top) + 1:].split("/"))}
    return {"abs": False, "p": nm.path(["r"] + (text.split("/") if text else []))}


def item(top, text, nm):
    parts = text.split("::")
    m = re.fullmatch(r"(.*)\[t(\d+)\]", parts[-1], re.S)
    name, tag = (m.group(1), int(m.group(2))) if m else (parts[-1], 0)
    out = node(top, parts[0], nm)
    out.update(c=0 if len(parts) == 2 else nm.num(parts[1]) if len(parts) == 3 else -1, f=nm.num(name), tag=tag)
    return out


def execute(batch, sc, top):
    nm = Names()
    cfg = config(sc, nm)
    events = []
    for again in (False, True) if sc.get("again") else (False,):
        shutil.rmtree(top, True)
        os.makedirs(top)
        lay_out(sc, top, again)
        events.append(dict(collect(batch, sc, top, nm), again=again))
    cfg["names"] = nm.chars()
    return {"cfg": cfg, "ev": events}


def collect(batch, sc, top, nm):
    dirs = [p for p in sc["given"] if os.path.isdir(os.path.join(top, *p))]
    a = batch.ask({"op": "collect", "root": os.path.join(top, "r"), "args": [spell(top, p, s, p in dirs) for p, s in zip(sc["given"], sc["styles"])]})
    if "ids" in a:
        warnings = []
        for file, text in a["warnings"]:
            at = node(top, file, nm)["p"]
            here = {c["n"] for c in sc["classes"]}
            found = sorted(here & set(re.findall(r"\w+", text)))
            warnings.append({"p": at, "c": nm.num(found[0]) if len(found) == 1 else -1})
        return {"ev": "collected", "ids": [item(top, i, nm) for i in a["ids"]], "errors": [node(top, n, nm) for n, _, _ in a["errors"]],
                "warnings": warnings}
    if a.get("fatal") == "missing":
        return {"ev": "missing", "p": node(top, a["path"], nm)["p"]}
    return {"ev": "fail"}


def from_design(run):
    text = run.design("CollectMC", run.pick("CollectMC2.cfg", "CollectMC3.cfg"))
    dump = vlib.printed(text, "TREE")[0]
    names = ["".join(map(chr, n)) for n in dump["names"]]

    def name(p):
        return [names[i - 1] for i in p]

    srcs = ["def test_f(): pass\ndef help(): pass\nclass TestC:\n    def test_f(self): pass\n", "def test_f(:\n"]
    nodes = [{"p": name(n["p"]), "kind": n["kind"], "mod": n["mod"] - 1, "src": srcs[n["mod"] - 1] if n["mod"] else ""} for n in dump["tree"]]
    mods = [{"bad": False, "funcs": [["test_f", "fun", 0], ["help", "fun", 0]]}, {"bad": True, "funcs": []}]
    classes = [{"m": 0, "n": "TestC", "init": False, "attrs": [["test_f", "fun", 0]], "bases": []}]
    out = []
    for d in vlib.printed(text, "SCN"):
        pats = ["".join(map(chr, p)) for p in d["files"]]
        out.append({"tree": nodes, "again": run.rng.random() < 0.2, "given": [name(p) for p in d["given"]], "styles": [run.rng.choice(["rel", "abs", "dot", "inner"]) for _ in d["given"]],
                    "testpaths": [name(p) for p in d["testpaths"]], "ini": {} if len(pats) == 2 else {"files": pats}, "mods": mods, "classes": classes})
    return out


def check(run, replay=None):
    top = vlib.build_full()
    if replay:
        scenarios = [replay]
    else:
        walks = from_design(run)
        if not run.thorough:
            walks = run.rng.sample(walks, min(len(walks), 250))
        text = run.design("InheritMC", run.pick("InheritMC4.cfg", "InheritMC5.cfg"))
        hiers = [[[b - 1 for b in bs] for bs in h] for h in vlib.printed(text, "SCN")]
        inherit = [rand(run.rng, h) for h in hiers for _ in range(run.pick(3, 2))]
        n = run.pick(500, 6000)
        scenarios = walks + inherit + [rand(run.rng) for _ in range(n)]
        run.notes["scenarios"] = {"walks_from_design": len(walks), "hierarchies_from_design": len(inherit), "random": n}
    work = os.path.join(vlib.scratch(), "t")
    batch = vlib.Batch(None, cmd=[os.path.join(top, "bin", "vc")],
                       env=vlib.clean_env(RUFF_SHIM_PYTHON=vlib.PY, PYTHONPATH=os.path.join(work, "pp")))
    pairs = [(sc, execute(batch, sc, work)) for sc in scenarios]
    batch.close()
    run.validate("CollectTrace", pairs)
    run.assumptions += ["the parser of ruff is replaced by Python's own (harness/ruff); the code above it is rtest's",
                        "given paths are spelled without `..'; links do not lead to a directory they are in; names and patterns are valid Unicode",
                        "tests are functions at the top level of a file or directly in a top-level class; hierarchies are acyclic"]
