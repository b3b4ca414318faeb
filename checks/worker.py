"""C20-C24, C28, C30, C31: the Python worker. Specifications: spec/Worker.tla, Lookup.tla, WorkerMC.tla, HierMC.tla."""

import fnmatch
import json
import os
import re
import shutil
import subprocess
import threading

import vlib

RUNTIME = os.path.join(vlib.VERIF, "lib", "runtime")
# kind of exception -> (how it counts, type name, has its own text)
KINDS = {"ok": ("ok", "", True), "assert": ("assert", "AssertionError", True), "bare": ("assert", "AssertionError", True),
         "during": ("assert", "AssertionError", True), "because": ("assert", "AssertionError", True),
         "subassert": ("assert", "SubAssert", True), "rtest_raises": ("assert", "AssertionError", False), "value": ("other", "ValueError", True),
         "strange": ("other", "Strange", True), "exit": ("other", "SystemExit", True), "exit0": ("other", "SystemExit", False),
         "genexit": ("other", "GeneratorExit", True), "stop": ("other", "StopIteration", True), "group": ("other", "ExceptionGroup", True),
         "badtext": ("other", "BadText", False), "surrogate": ("other", "ValueError", True), "chained": ("other", "KeyError", True),
         "pytest_fail": ("other", "Failed", True), "pytest_skip": ("other", "Skipped", True), "deep": ("other", "RecursionError", False)}
ASSERTS = [k for k, v in KINDS.items() if v[0] == "assert"]
OTHERS = [k for k, v in KINDS.items() if v[0] == "other"]
TEXTS = ["", "x", "line\nline\n", "\r\n\t", "nul\0", "ünï → 你好 🎉", "lone \udc80 \ud800", "{\"nodeid\": \"x\"}\n", "\u2028\u2029\x85\x0b\x0c", "\x1b[31m \\ \" '", "y" * 70000, "\ufeffbom", "\udc80\n" * 3]
REASONS = ["", "r1", "later", "ü \" \\ reason"]
BADS = {"syntax": "def (:\n", "value": "raise ValueError('no')\n", "exit": "raise SystemExit(0)\n", "exit3": "import sys\nsys.exit(3)\n",
        "missing": "import no_such_module_anywhere\n", "assert": "assert False, 'no'\n", "genexit": "raise GeneratorExit\n", "nul": "x = 1\0\n",
        "base": "class B(BaseException): pass\nraise B\n", "name": "undefined_name\n", "pytest": "import pytest\npytest.skip('no', allow_module_level=True)\n",
        "chdir": "import os\nos.chdir('/')\nundefined_name\n", "thread": "import threading\nthreading.Thread(target=lambda: 1 / 0).start()\nraise ValueError\n",
        "recursion": "def f(): f()\nf()\n", "cases": None, "nofile": None, "isdir": None}
FUN_NAMES = ["test_a", "test_b", "test_c", "test", "tests", "test_é", "test_a1", "check_x", "it_y", "helper", "Test_fn", "xtest", "test_ab", "_test_x", "test_A", "test__a"]
CLS_NAMES = ["TestA", "TestB", "Testé", "Suite", "MySuite", "test_cls", "Helper", "Test", "TestAB", "ATest", "_TestX", "Test_A", "testA"]
FPATS = [["test*"], ["test_?"], ["test_[ab]*"], ["test_[!a]*", "it_*"], ["check_*", "xtest"], ["*_a"], ["test"], ["[tT]est_*"], ["test_[a-c]"], ["test_a"], ["*est_*", "it_?"], ["_t*", "test_A"], ["*test_?"]]
CPATS = [["Test*"], ["Test?"], ["*Suite"], ["Test[AB]", "Suite"], ["[!H]*e"], ["TestA"], ["test_*", "Test*"], ["*Test"], ["*Test*"], ["_T*", "Test_?"]]
SPECIAL = ["__init__", "__doc__", "setup_method", "setUp", "teardown_method", "tearDown", "_C1", "_C12", "_f1", "_f12", "Base", "_v", "rtest", "pytest", "__module__"]


def usable(pats):
    return not any(fnmatch.fnmatchcase(s, p) for s in SPECIAL for p in pats)


# ---------------------------------------------------------------- programs


class Prog:
    """A program under construction. Functions and classes are numbered from 1, as in the specification."""

    def __init__(self, rng):
        self.rng = rng
        self.p = {"cpats": None, "fpats": None, "files": [], "funs": [], "classes": [], "by": {}, "order": [], "exec": False, "deepout": False, "shared": [], "packages": [], "cfam": ""}

    def fun(self, phase="body", kind="plain", self_=True, dims=(), skips=(), fam="rtest", inline=True, bad=False, wrap=""):
        self.p["funs"].append({"phase": phase, "kind": kind, "self": self_, "dims": list(dims), "skips": list(skips), "fam": fam, "inline": inline, "bad": bad, "wrap": wrap})
        return len(self.p["funs"])

    def cls(self, home, bases=(), attrs=(), skips=(), init=False, dims=()):
        self.p["classes"].append({"home": home, "bases": list(bases), "attrs": list(attrs), "skips": list(skips), "init": init, "dims": list(dims)})
        return len(self.p["classes"])

    def file(self, path, bad="", outside=False, helper=""):
        self.p["files"].append({"path": path, "bad": bad, "outside": outside, "ns": [], "helper": helper, "quirk": ""})
        return len(self.p["files"])

    def bind(self, f, n, kind, ref, via=False):
        self.p["files"][f - 1]["ns"].append({"n": n, "kind": kind, "ref": ref, "via": via})

    def share(self, n, kind, ref):
        """Something that files import from a module of its own."""
        self.p["shared"].append({"n": n, "kind": kind, "ref": ref})

    def plan(self, key, kinds, speak=True, close=()):
        r = self.rng
        out = []
        for k in kinds:
            o = r.randrange(len(TEXTS)) if r.random() < (0.85 if speak else 0.6) else -1
            e = r.randrange(len(TEXTS)) if r.random() < 0.35 or (speak and o < 0) else -1
            out.append({"raise": k, "out": o, "err": e, "close": list(close)})
        self.p["by"][key] = out

    def kind(self, k):
        return {"ok": "ok", "assert": self.rng.choice(ASSERTS), "other": self.rng.choice(OTHERS)}[k]

    def done(self):
        self.p["order"] = list(range(len(self.p["files"])))
        return self.p


def skips(rng, p=0.15):
    if rng.random() >= p:
        return []
    return [{"fam": rng.choice(["rtest", "pytest"]), "r": rng.choice(REASONS), "form": rng.choice(["pos", "kw", "attr"])} for _ in range(rng.choice([1, 1, 1, 2]))]


def phase_classes(rng, dumps):
    """One class for each sequence of outcomes of the design."""
    g = Prog(rng)
    f = g.file(["test_design.py"])
    for n, log in enumerate(dumps):
        got = {ph: [] for ph in ("new", "setup", "teardown")}
        attrs = []
        for j, steps in enumerate(log):
            kinds = {s["ph"]: g.kind(s["k"]) for s in steps}
            for ph in got:
                if ph in kinds:
                    got[ph].append(kinds[ph])
            k = g.fun()
            attrs.append({"n": f"test_{j}", "kind": "fun", "ref": k})
            g.plan(f"f{k}", [kinds.get("body", "ok")])
        for ph, names in (("setup", ["setup_method", "setUp"]), ("teardown", ["teardown_method", "tearDown"])):
            if any(x != "ok" for x in got[ph]) or rng.random() < 0.6:
                k = g.fun(phase=ph)
                attrs.append({"n": rng.choice(names), "kind": "fun", "ref": k})
                if got[ph]:
                    g.plan(f"f{k}", got[ph])
        c = g.cls(f, attrs=attrs)
        g.plan(f"new{c}", got["new"])
        g.bind(f, f"TestP{n}", "class", c)
    return g.done()


def hierarchies(rng, dumps):
    g = Prog(rng)
    f = g.file(["test_hier.py"])
    for n, classes in enumerate(dumps):
        ids = []
        for k, c in enumerate(classes):
            attrs = []
            for a in c["attrs"]:
                ref = 0
                if a["kind"] == "static" and rng.random() < 0.3:
                    a = dict(a, kind="classm")
                if a["kind"] in ("fun", "static", "classm"):
                    ref = g.fun(self_=a["kind"] == "fun", inline=a["kind"] == "classm" or rng.random() < 0.7)
                    g.plan(f"f{ref}", [rng.choice(["ok", "ok", "assert"])])
                attrs.append({"n": "test_m", "kind": a["kind"] if a["kind"] != "none" else rng.choice(["none", "int", "prop", "builtin", "inner", "fixture"]), "ref": ref})
            ids.append(g.cls(f, bases=[ids[b - 1] for b in c["bases"]], attrs=attrs))
            if rng.random() < 0.8:
                g.bind(f, f"TestH{n}{'ABC'[k]}", "class", ids[-1])
        g.plan(f"new{ids[0]}", ["ok"])
    for c in range(1, len(g.p["classes"]) + 1):
        g.plan(f"new{c}", ["ok"])
    return g.done()


def skipped(rng, dumps):
    """A class with a base for each combination of skip marks."""
    g = Prog(rng)
    f = g.file(["test_skips.py"])
    names = {0: "", **{i: f"reason {i}" for i in range(1, 7)}}
    marks = lambda ms: [{"fam": m["fam"], "r": names[m["r"]], "form": rng.choice(["pos", "kw", "attr"])} for m in ms]  # noqa: E731
    for n, d in enumerate(dumps):
        k = g.fun(skips=marks(d["meth"]))
        g.plan(f"f{k}", ["ok"])
        attr = [{"n": "test_m", "kind": "fun", "ref": k}]
        b = g.cls(f, attrs=[] if d["own"] else attr, skips=marks(d["base"]))
        c = g.cls(f, bases=[b], attrs=attr if d["own"] else [], skips=marks(d["cls"]))
        g.plan(f"new{b}", ["ok"])
        g.bind(f, f"TestS{n}", "class", c)
        if rng.random() < 0.3:
            g.bind(f, f"TestB{n}", "class", b)
    return g.done()


# What modules do to the streams when they are imported
QUIRKS = ["sys.stderr = sys.stdout", "sys.stdout = sys.stderr", "sys.stdout, sys.stderr = sys.stderr, sys.stdout", "sys.stdout = io.StringIO()", "sys.stderr = io.StringIO()",
          "sys.stdout = sys.stderr = io.TextIOWrapper(io.BytesIO(), 'ascii')", "sys.stdout = sys.__stdout__"]
SAME = [[["a", "c.d", "test_m.py"], ["a", "c", "d", "test_m.py"], ["a.c", "d", "test_m.py"]], [["test.x.py"], ["test", "x.py"]], [["b", "test_m.py"], ["b.test_m.py"]]]


def rand(rng, nfiles=None, plain=False):
    g = Prog(rng)
    if rng.random() < 0.5:
        g.p["fpats"] = rng.choice([p for p in FPATS if usable(p)])
    if rng.random() < 0.4:
        g.p["cpats"] = rng.choice([p for p in CPATS if usable(p)])
    if rng.random() < 0.35:
        g.p["cfam"] = rng.choice(["rtest", "pytest"])
    nfiles = nfiles or rng.choice([1, 1, 2, 3, 5])
    dirs = [[], ["a"], ["b"], ["a", "c.d"], ["sp ace"]]
    seen = set()
    wild = rng.choice([0, 0.2, 0.5])
    if nfiles > 1 and rng.random() < 0.4:
        share(g, rng, wild)
    same = rng.sample(rng.choice(SAME), 2) if nfiles > 1 and rng.random() < 0.2 else []
    for i in range(nfiles):
        path = same.pop() if same else rng.choice(dirs) + [rng.choice(["test_m.py", "test_n.py", "m_test.py", f"test_{i}.py", "test.x.py"])]
        outside = rng.random() < 0.05
        if (outside, tuple(path)) in seen:
            path = path[:-1] + [f"test_u{i}.py"]
        seen.add((outside, tuple(path)))
        bad = rng.choice(list(BADS)) if rng.random() < (0.25 if nfiles > 1 else 0.1) else ""
        if bad == "cases" and g.p["fpats"]:  # the malformed test would not be looked at
            bad = "value"
        f = g.file(path, bad, outside, helper=f"hlp_{i}" if rng.random() < 0.3 else "")
        fill(g, rng, f, wild)
        if rng.random() < 0.15:
            g.p["files"][f - 1]["quirk"] = rng.choice(QUIRKS)
    p = g.done()
    rng.shuffle(p["order"])
    p["packages"] = sorted({tuple(x["path"][:-1]) for x in p["files"] if not x["outside"] and rng.random() < 0.25})
    return p


def share(g, rng, wild):
    for n in rng.sample(FUN_NAMES, rng.choice([0, 1, 2])):
        g.share(n, "fun", somefun(g, rng, wild, False))
    for n in rng.sample(CLS_NAMES, rng.choice([0, 1])):
        g.share(n, "class", someclass(g, rng, 0, wild, []))


def outcome(g, rng, wild):
    return g.kind(rng.choice(["assert", "other"])) if rng.random() < wild else "ok"


def bodyplan(g, rng, k, wild):
    fn = g.p["funs"][k - 1]
    close = rng.choice([["out"], ["err"], ["out", "err"]]) if rng.random() < 0.04 else []
    g.plan(f"f{k}", [outcome(g, rng, wild) for _ in range(rng.choice([1, 1, 3]))], speak=rng.random() < 0.9, close=close)
    if fn["dims"] and 0 not in fn["dims"] and rng.random() < 0.6:
        case = [rng.randrange(d) + 1 for d in fn["dims"]]
        g.plan(f"f{k}/{json.dumps(case)}", [outcome(g, rng, 0.8)])


def dims(rng):
    return rng.choice([[], [], [], [], [1], [2], [3], [2, 2], [1, 3], [2, 1, 2], [0], [2, 0]])


def somefun(g, rng, wild, self_, inline=False):
    k = g.fun(kind=rng.choice(["async", "gen", "agen"]) if rng.random() < 0.07 else "plain", self_=self_, dims=dims(rng), skips=skips(rng),
              fam=rng.choice(["rtest", "rtest", "pytest"]), inline=inline or rng.random() < 0.75,
              wrap=rng.choice(["bare", "wraps", "Wrapper"]) if rng.random() < 0.15 else "")
    bodyplan(g, rng, k, wild)
    return k


def someclass(g, rng, f, wild, local):
    """A class whose home is file f, with bases among the classes in local."""
    bases = []
    if local and rng.random() < 0.6:
        bases = rng.sample(local, min(len(local), rng.choice([1, 1, 2])))
        if not consistent(g.p["classes"], bases):
            bases = bases[:1]
    attrs = []
    used = set()
    for n in rng.sample(FUN_NAMES, rng.choice([0, 1, 2, 3])):
        r = rng.random()
        if r < 0.72:
            attrs.append({"n": n, "kind": "fun", "ref": somefun(g, rng, wild, True)})
        elif r < 0.8:
            kind = "classm" if g.p["cfam"] else rng.choice(["static", "classm"])  # a static method cannot tell which class it runs for
            attrs.append({"n": n, "kind": kind, "ref": somefun(g, rng, wild, False, kind == "classm")})
        elif r < 0.9 and local:
            c = g.p["classes"][rng.choice(local) - 1]
            same = [a for a in c["attrs"] if a["kind"] == "fun" and g.p["funs"][a["ref"] - 1]["phase"] == "body"]
            if same:
                attrs.append({"n": n, "kind": "fun", "ref": rng.choice(same)["ref"]})
        else:
            attrs.append({"n": n, "kind": rng.choice(["none", "int", "prop", "builtin", "inner", "fixture"]), "ref": 0})
    for ph, names in (("setup", ["setup_method", "setUp"]), ("teardown", ["teardown_method", "tearDown"])):
        for n in names:
            if rng.random() < 0.3 and n not in used:
                used.add(n)
                if rng.random() < 0.15:
                    attrs.append({"n": n, "kind": "none", "ref": 0})
                else:
                    k = g.fun(phase=ph, kind=rng.choice(["async", "gen"]) if rng.random() < 0.05 else "plain")
                    g.plan(f"f{k}", [outcome(g, rng, wild) for _ in range(rng.choice([1, 1, 3]))])
                    attrs.append({"n": n, "kind": "fun", "ref": k})
    rng.shuffle(attrs)
    outside = f > 0 and g.p["files"][f - 1]["outside"]
    c = g.cls(f, bases, attrs, skips(rng), not outside and rng.random() < 0.08, rng.choice([[], [], [1], [2], [2, 1]]) if g.p["cfam"] else [])
    g.plan(f"new{c}", [outcome(g, rng, wild / 2) for _ in range(rng.choice([1, 3]))])
    return c


def fill(g, rng, f, wild):
    mine = []
    taken = set()
    for b in g.p["shared"]:
        if rng.random() < 0.7:
            g.bind(f, b["n"], b["kind"], b["ref"], via="shared")
            taken.add(b["n"])
    for n in rng.sample(FUN_NAMES, rng.choice([0, 1, 2, 4])):
        if n in taken:
            continue
        if mine and rng.random() < 0.15:
            k = rng.choice(mine)
        else:
            k = somefun(g, rng, wild, False)
            if g.p["funs"][k - 1]["wrap"] == "bare":  # known by its own name only
                g.p["funs"][k - 1]["inline"] = True
            else:
                mine.append(k)
        g.bind(f, n, "fun", k, via=bool(g.p["files"][f - 1]["helper"]) and rng.random() < 0.5)
    if rng.random() < 0.3:
        g.bind(f, rng.choice(["test_value", "TestValue", "test_obj"]), "other", rng.randrange(5))
    local = [b["ref"] for b in g.p["shared"] if b["kind"] == "class" and b["n"] in taken]
    free = [n for n in rng.sample(CLS_NAMES, len(CLS_NAMES)) if n not in taken]
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        c = someclass(g, rng, f, wild, local)
        local.append(c)
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            if free:
                g.bind(f, free.pop(), "class", c)


def consistent(classes, bases):
    made = {}

    def make(k):
        if k not in made:
            made[k] = type(f"C{k}", tuple(make(b) for b in classes[k - 1]["bases"]) or (object,), {})
        return made[k]

    try:
        type("X", tuple(make(b) for b in bases), {})
        return True
    except TypeError:
        return False


# ---------------------------------------------------------------- rendering


def entries(k, i, n, two):
    if two:
        return [f"('e{i}x{j}', {j})" for j in range(1, n + 1)]
    return [f"'e{i}x{j}'" for j in range(1, n + 1)]


def skip_lines(marks, cls):
    """Decorator lines, and for a class the lines of its body."""
    deco, inner = [], []
    for m in marks:
        r = m["r"]
        if m["fam"] == "rtest":
            deco.append("@rtest.mark.skip(" + (repr(r) if m["form"] == "pos" else f"reason={r!r}") + ")" if r or m["form"] != "attr" else "@rtest.mark.skip()")
        else:
            arg = "" if not r else repr(r) if m["form"] == "pos" else f"reason={r!r}"
            if cls and m["form"] == "attr" and len(marks) == 1:
                inner.append(f"pytestmark = pytest.mark.skip({arg})" if len(r) % 2 else f"pytestmark = [pytest.mark.slow, pytest.mark.skip({arg})]")
            elif arg == "" and m["form"] == "kw":
                deco.append("@pytest.mark.skip")
            else:
                deco.append(f"@pytest.mark.skip({arg})")
    return deco, inner


class Render:
    def __init__(self, p):
        self.p = p
        self.done = set()
        self.cdone = set()

    def fdef(self, k, name, ind, deco=()):
        fn = self.p["funs"][k - 1]
        out = [*deco, f"@_v.fun({k})"]
        out += skip_lines(fn["skips"], False)[0]
        args, values, params = [], [], []
        stack = []
        for i, n in enumerate(fn["dims"], 1):
            two = (k + i) % 3 == 0
            vals = entries(k, i, n, two)
            names = [f"a{i}", f"b{i}"] if two else [f"a{i}"]
            if i == 1 and k % 4 == 1:  # names that mean something elsewhere
                names[0] = ["request", "tmp_path", "test", "case_id", "kwargs"][k // 4 % 5]
            params += names
            args.append("(" + ", ".join(names) + ")")
            values.append("[" + ", ".join(vals) + "]")
            ids = ", ids=[" + ", ".join(f"'e{i}x{j}'" for j in range(1, n + 1)) + "]" if two or (k + i) % 2 else ""
            mark = "pytest.mark.parametrize" if fn["fam"] == "pytest" else "rtest.mark.cases"
            stack.append(f"@{mark}('{','.join(names)}', [{', '.join(vals)}]{ids})")
        if fn["bad"]:
            stack.append("@rtest.mark.cases('p,q', [(1, 2), 3])")
            params += ["p", "q"]
        if fn["wrap"]:
            stack.insert(0, f"@_v.{fn['wrap']}")
        out += reversed(stack)
        kw = ""
        if self.p.get("cfam") and fn["phase"] == "body" and (fn["self"] or "@classmethod" in deco):
            params.append("**kw")
            kw = f", kw, {'self' if fn['self'] else 'cls'}"
        head = "async def" if fn["kind"] in ("async", "agen") else "def"
        out.append(f"{head} {name}({', '.join((['self'] if fn['self'] else ['cls'] if '@classmethod' in deco else []) + params)}):")
        me = "self" if fn["self"] else "None"
        if fn["phase"] == "body":
            call = f"_v.body({k}, {me}, [{', '.join(args)}], [{', '.join(values)}]{kw})"
        else:
            call = f"_v.phase('{fn['phase']}', {k}, self)"
        out.append("    " + call)
        if fn["kind"] in ("gen", "agen"):
            out.append("    yield 1")
        elif k % 7 == 0:
            out.append("    return 5")
        self.done.add(k)
        return [ind + x for x in out]

    def attr(self, a, ind):
        n, kind, k = a["n"], a["kind"], a["ref"]
        if kind == "fun":
            return self.fdef(k, n, ind) if k not in self.done else [f"{ind}{n} = _v.FUN[{k}]"]
        if kind == "static":
            return self.fdef(k, n, ind, ["@staticmethod"]) if k not in self.done else [f"{ind}{n} = staticmethod(_v.FUN[{k}])"]
        if kind == "classm":
            return self.fdef(k, n, ind, ["@classmethod"])
        return [ind + x for x in {"none": [f"{n} = None"], "int": [f"{n} = 3"], "prop": ["@property", f"def {n}(self):", "    return _v.body"],
                                  "builtin": [f"{n} = print"], "inner": [f"class {n}:", "    pass"],
                                  "fixture": ["@pytest.fixture", f"def {n}(self):", "    return _v.body"]}[kind]]

    def classes(self, f, names):
        """The classes whose home is file f."""
        out = []
        # what is kept under a private name
        for c in self.p["classes"]:
            if c["home"] == f:
                for a in c["attrs"]:
                    if a["kind"] in ("fun", "static") and not self.p["funs"][a["ref"] - 1]["inline"] and a["ref"] not in self.done:
                        out += self.fdef(a["ref"], f"_f{a['ref']}", "")
        for k, c in enumerate(self.p["classes"], 1):
            if c["home"] != f:
                continue
            deco, inner = skip_lines(c["skips"], True)
            bases = ", ".join(f"_v.CLS[{b}]" for b in c["bases"]) or "_v.Base"
            for i, n in enumerate(c.get("dims", []), 1):
                mark = "pytest.mark.parametrize" if self.p["cfam"] == "pytest" else "rtest.mark.cases"
                deco.insert(0, f"@{mark}('c{k}_{i}', {[f'd{k}x{i}x{j}' for j in range(1, n + 1)]})")
            out += [f"@_v.cls({k})", *deco, f"class {names.get(k, f'_C{k}')}({bases}):", "    pass", *("    " + i for i in inner)]
            if c.get("init"):
                out += ["    def __init__(self):", "        super().__init__()"]
            for a in c["attrs"]:
                out += self.attr(a, "    ")
        return out

    def shared(self):
        """Source of the module that files share."""
        out = ["import rtest, pytest", "import vrun as _v"]
        out += self.classes(0, {b["ref"]: b["n"] for b in self.p["shared"] if b["kind"] == "class"})
        for b in self.p["shared"]:
            if b["kind"] == "fun":
                out += self.fdef(b["ref"], b["n"], "")
        return "\n".join(out) + "\n"

    def module(self, f, path):
        """Source of file f (a number) and of its helper."""
        x = self.p["files"][f - 1]
        head = ["import rtest, pytest", "import vrun as _v"]
        out, hlp = list(head), list(head)
        names = {}
        for b in x["ns"]:
            if b["kind"] == "class" and b["via"] != "shared":
                names.setdefault(b["ref"], b["n"])
        out += self.classes(f, names)
        done = set()
        for b in x["ns"]:
            n, k = b["n"], b["ref"]
            if b["via"] == "shared":
                out.insert(2, f"from shr import {'*' if k % 3 == 0 and n[0] != '_' else n}")
            elif b["kind"] == "class":
                if names[k] != n:
                    out.append(f"{n} = _v.CLS[{k}]")
            elif b["kind"] == "other":
                out += [[f"{n} = 3"], [f"{n} = print"], [f"{n} = [1]"], [f"{n} = _v.CLS"], ["@pytest.fixture", f"def {n}():", "    return 1"]][k % 5]
            elif k in self.done or k in done:
                out.append(f"{n} = _v.FUN[{k}]")
            elif b["via"] and x["helper"]:
                hlp += self.fdef(k, n, "")
                d = x["path"][:-1]
                packed = not x["outside"] and len(d) == 1 and tuple(d) in map(tuple, self.p.get("packages", []))
                out.insert(2, f"from {'.' if packed and k % 2 else ''}{x['helper']} import {n}")
            elif self.p["funs"][k - 1]["inline"]:
                out += self.fdef(k, n, "")
            else:
                out += self.fdef(k, f"_f{k}", "") + [f"{n} = _f{k}"]
        out.append(f"_v.imported({f}, __file__, {path!r})")
        if x.get("quirk"):
            out.append("import io, sys\n" + x["quirk"])
        if x["bad"] in BADS and BADS[x["bad"]]:
            out.append(BADS[x["bad"]])
        if x["bad"] == "cases":
            out += ["@rtest.mark.cases('p,q', [(1, 2), 3])", "def test_malformed(p, q):", "    pass"]
        return "\n".join(out) + "\n", "\n".join(hlp) + "\n"


def write(p, work):
    """Write the program below work; returns the worker's command line."""
    r = Render(p)
    paths = []
    os.makedirs(os.path.join(work, "r"), exist_ok=True)
    if p.get("shared"):
        with open(os.path.join(work, "r", "shr.py"), "w", encoding="utf-8") as h:
            h.write(r.shared())
    for d in p.get("packages", []):
        os.makedirs(os.path.join(work, "r", *d), exist_ok=True)
        with open(os.path.join(work, "r", *d, "__init__.py"), "w") as h:
            h.write("")
    for f, x in enumerate(p["files"], 1):
        top = os.path.join(work, "o" if x["outside"] else "r")
        path = os.path.join(top, *x["path"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        src, hlp = r.module(f, path)
        if x["bad"] == "isdir":
            os.makedirs(path, exist_ok=True)
        elif x["bad"] != "nofile":
            with open(path, "w", encoding="utf-8") as h:
                h.write(src)
        if x["helper"]:
            with open(os.path.join(os.path.dirname(path), x["helper"] + ".py"), "w", encoding="utf-8") as h:
                h.write(hlp)
        paths.append(path)
    with open(os.path.join(work, "plan.json"), "w", encoding="ascii") as h:
        json.dump({"texts": TEXTS, "by": p["by"], "dims": {k: len(c.get("dims", [])) for k, c in enumerate(p["classes"], 1)}}, h)
    argv = ["--root", os.path.join(work, "r"), "--out", os.path.join(work, "x/y/res.jsonl" if p["deepout"] else "res.jsonl")]
    if p["cpats"]:
        argv += ["--python-classes", *p["cpats"]]
    if p["fpats"]:
        argv += ["--python-functions", *p["fpats"]]
    return argv + ["--", *(paths[i] for i in p["order"])], paths


class Zygotes:
    def __init__(self, n=5):
        env = vlib.py_env()
        env["PYTHONPATH"] += ":" + RUNTIME
        self.env = env
        self.ps = [subprocess.Popen([vlib.PY, os.path.join(RUNTIME, "zygote.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                    env=env, text=True) for _ in range(n)]

    def run_all(self, n, do):
        """do(i, ask) for every i below n, spread over the zygotes."""
        lock = threading.Lock()
        todo = iter(range(n))
        errors = []

        def loop(p):
            def ask(req):
                p.stdin.write(json.dumps(req) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                if not line:
                    raise vlib.ToolError("the zygote ended")
                return json.loads(line)

            while not errors:
                with lock:
                    i = next(todo, None)
                if i is None:
                    return
                try:
                    do(i, ask)
                except Exception as e:  # noqa: BLE001
                    errors.append(e)

        ts = [threading.Thread(target=loop, args=(p,)) for p in self.ps]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]

    def close(self):
        for p in self.ps:
            p.stdin.close()
            p.kill()
            p.wait()


# ---------------------------------------------------------------- traces


def soft(text):
    return re.sub("[\ud800-\udfff?\ufffd]", "?", text)


def spoken(text, texts):
    """The events whose text this is; a negative number for anything else. texts: seq -> text"""
    out, pos = [], 0
    for m in re.finditer(r"<@(\d+)>(.*?)</@>", text, re.S):
        seq = int(m.group(1))
        fine = m.start() == pos and soft(texts.get(seq, "")) == soft(m.group(2))
        out.append(seq if fine else -seq)
        pos = m.end()
    return out + ([-1] if pos != len(text) else [])


def load_results(path):
    """(strict, records) or None when there is no file"""
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return None

    def no(x):
        raise ValueError(x)

    strict, out = True, []
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        strict, text = False, data.decode("utf-8", "surrogateescape")
    lines = text.split("\n")
    strict &= lines[-1] == ""
    for line in lines[:-1] if lines[-1] == "" else lines:
        try:
            r = json.loads(line, parse_constant=no)
            strict &= isinstance(r["nodeid"], str) and isinstance(r["outcome"], str) and r["duration_ms"] >= 0
            out.append(r)
            json.dumps(r, ensure_ascii=False).encode("utf-8")
        except Exception:  # noqa: BLE001
            strict = False
    return strict, out


def own(x):
    """The names of a file, with whether they are its own and not imported."""
    out, home = [], {}
    for b in x["ns"]:
        o = b["via"] != "shared"
        if b["kind"] == "fun" and o:
            o = home.setdefault(b["ref"], not (b["via"] and x["helper"]))
        out.append((b, o))
    return out


class Abstract:
    """The program in the terms of the specification."""

    def __init__(self, p):
        self.p = p
        self.names = {}
        self.types = {}
        self.reasons = {"": 0}

    def name(self, n):
        return self.names.setdefault(n, len(self.names) + 1)

    def type(self, n):
        return self.types.setdefault(n, len(self.types) + 1) if n else 0

    def reason(self, r):
        return self.reasons.setdefault(r, len(self.reasons))

    def marks(self, ms):
        return [{"fam": m["fam"], "r": self.reason(m["r"])} for m in ms]

    def cfg(self):
        p = self.p
        codes = lambda s: [ord(c) for c in s]  # noqa: E731
        four = [self.name(n) for n in ("setup_method", "setUp", "teardown_method", "tearDown")]
        body = {"files": [{"bad": bool(x["bad"]), "ns": [{"n": self.name(b["n"]), "kind": b["kind"], "ref": b["ref"], "own": o} for b, o in own(x)]}
                          for x in p["files"]],
                "funs": [{"kind": "plain" if f["kind"] == "plain" else "odd", "dims": f["dims"], "py": f["fam"] == "pytest", "skips": self.marks(f["skips"])} for f in p["funs"]],
                "classes": [{"bases": c["bases"], "init": c.get("init", False), "dims": c.get("dims", []), "skips": self.marks(c["skips"]),
                             "attrs": [{"n": self.name(a["n"]), "kind": a["kind"], "ref": a["ref"]} for a in c["attrs"]]} for c in p["classes"]]}
        return {**body, "cpy": p.get("cfam") == "pytest", "names": [codes(n) for n in self.names], "sm": four[0], "su": four[1], "tm": four[2], "td": four[3],
                "cpats": [codes(x) for x in p["cpats"] or ["Test*"]], "fpats": [codes(x) for x in p["fpats"] or ["test*"]]}


def case_of(suffix):
    if not suffix:
        return []
    out = []
    last = ()
    for i, part in enumerate(suffix[1:-1].split("-"), 1):
        m = re.fullmatch(r"e(\d+)x(\d+)", part)
        d = re.fullmatch(r"d(\d+)x(\d+)x(\d+)", part)
        if m and not last and int(m.group(1)) == i:
            out.append(int(m.group(2)))
        elif d and int(d.group(2)) == (last[1] + 1 if last and last[0] == d.group(1) else 1):
            last = (d.group(1), int(d.group(2)))
            out.append(100 * int(d.group(1)) + int(d.group(3)))
        else:
            return [-1]
    return out


def trace(p, work, paths, answer):
    ab = Abstract(p)
    for f in p["files"]:
        for b in f["ns"]:
            ab.name(b["n"])
    ev, texts, textless = [], {}, {}
    try:
        with open(os.path.join(work, "log"), encoding="utf-8") as f:
            log = [json.loads(x) for x in f]
    except OSError:
        log = []
    for e in log:
        if e["ev"] == "import":
            texts[e["seq"]] = "import"
            ev.append({"ev": "import", "f": e["f"], "own": e["own"]})
            continue
        if e["ev"] == "unregistered":
            ev.append(e)
            continue
        rk, rt, own = KINDS[e["kind"]]
        if e["so"] >= 0:
            texts[e["seq"]] = TEXTS[e["so"]]
        if e["se"] >= 0:
            texts[(e["seq"], "err")] = TEXTS[e["se"]]
        if not own:
            textless[e["seq"]] = rt
        ev.append({"ev": e["ev"], "inst": e["inst"], "cls": e["cls"], "fun": e["fun"], "case": e["case"], "seq": e["seq"], "rk": rk, "rt": ab.type(rt),
                   "so": e["so"] >= 0, "se": e["se"] >= 0, "co": e["co"], "ce": e["ce"]})
    errtexts = {k[0]: v for k, v in texts.items() if isinstance(k, tuple)}
    if answer.get("hang"):
        return {"cfg": ab.cfg(), "ev": ev + [{"ev": "hang"}]}
    got = load_results(os.path.join(work, "x/y/res.jsonl" if p["deepout"] else "res.jsonl"))
    root = os.path.join(work, "r") + "/"
    ids = {}
    for f, path in enumerate(paths, 1):
        ids[path[len(root):] if path.startswith(root) else path] = f
    if got:
        ev.append({"ev": "results", "strict": got[0]})
        for r in got[1]:
            nodeid = str(r.get("nodeid"))
            f, rest = next(((n, nodeid[len(k) + 2:]) for k, n in ids.items() if nodeid.startswith(k + "::")), (0, nodeid))
            base, bracket, tail = rest.partition("[")
            parts = base.split("::")
            known = f and any(b["n"] == parts[0] for b in p["files"][f - 1]["ns"])
            if f and p["files"][f - 1]["bad"] and not known:
                cn = n = 0
            else:
                cn = ab.name(parts[0]) if len(parts) > 1 else 0
                n = ab.name("::".join(parts[1:]) if len(parts) > 1 else parts[0])
            err = r.get("error") or {}
            tb = err.get("traceback") or ""
            seen = [int(x) for x in re.findall(r"<!(\d+)!>", tb)] + [s for s, t in textless.items() if t in tb]
            ev.append({"ev": "record", "f": f, "cn": cn, "n": n, "case": case_of(bracket + tail), "outcome": r.get("outcome"),
                       "rt": ab.types.get(r.get("error_type") or "", 0), "trace": seen, "reason": ab.reasons.get(soft(err.get("reason") or ""), ab.reasons.get(err.get("reason") or "", -1)),
                       "out": spoken(r.get("stdout") or "", texts), "err": spoken(r.get("stderr") or "", errtexts)})
            if ev[-1]["reason"] == -1:
                ab.marks([x for f in p["funs"] + p["classes"] for x in f["skips"]])
                ev[-1]["reason"] = ab.reasons.get(err.get("reason") or "", -1)
    ev.append({"ev": "exit", "code": answer["code"]})
    return {"cfg": ab.cfg(), "ev": ev}


def run_pairs(programs, keep=False):
    base = os.path.join(vlib.scratch(), "w")
    out = [None] * len(programs)
    z = Zygotes()
    bad = [0]

    def do(i, ask):
        if bad[0] >= 6:
            return
        p = programs[i]
        work = os.path.join(base, str(i))
        shutil.rmtree(work, True)
        os.makedirs(work)
        argv, paths = write(p, work)
        env = {"VRUN_PLAN": os.path.join(work, "plan.json"), "VRUN_LOG": os.path.join(work, "log")}
        if p["exec"]:
            with open(os.path.join(work, "out"), "wb") as o, open(os.path.join(work, "err"), "wb") as e:
                try:
                    answer = {"code": subprocess.run([vlib.PY, "-m", "rtest.worker", *argv], cwd=work, env={**z.env, **env}, stdin=subprocess.DEVNULL,
                                                     stdout=o, stderr=e, timeout=60).returncode}
                except subprocess.TimeoutExpired:
                    answer = {"hang": True}
        else:
            answer = ask({"cwd": work, "argv": argv, "env": env, "timeout": 60})
        if answer.get("hang"):
            bad[0] += 1
        out[i] = (p, trace(p, work, paths, answer))
        if not keep:
            shutil.rmtree(work, True)

    try:
        z.run_all(len(programs), do)
    finally:
        z.close()
    return [x for x in out if x]


def check(run, replay=None):
    rng = run.rng
    if replay:
        programs = [replay]
    else:
        logs = vlib.printed(run.design("WorkerMC", "WorkerMC2.cfg"), "SCN")
        if run.thorough:
            logs += vlib.printed(run.design("WorkerMC", "WorkerMC3.cfg"), "SCN")
        hier = vlib.printed(run.design("HierMC"), "SCN")
        if not run.thorough:
            hier = rng.sample(hier, 400)
        marks = vlib.printed(run.design("SkipMC"), "SCN")
        rng.shuffle(marks)
        rng.shuffle(logs)
        programs = [phase_classes(rng, logs[i: i + 8]) for i in range(0, len(logs), 8)]
        programs += [hierarchies(rng, hier[i: i + 8]) for i in range(0, len(hier), 8)]
        programs += [skipped(rng, marks[i: i + 12]) for i in range(0, len(marks), 12)]
        n = run.pick(200, 2500)
        programs += [rand(rng) for _ in range(n)]
        for p in rng.sample(programs, run.pick(12, 80)):
            p["exec"], p["deepout"] = True, rng.random() < 0.5
        run.notes["scenarios"] = {"phase_sequences": len(logs), "hierarchies": len(hier), "skip_marks": len(marks), "random_programs": n}
    run.validate("WorkerTrace", run_pairs(programs))
    run.assumptions += ["tests do not end the process, interrupt it, or tamper with the worker's own modules", "most programs run in a forked child of a Python "
                        "process that has already imported the worker, some through `python -m rtest.worker`"]
