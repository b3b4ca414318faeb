"""C35, C36, C37: whole runs of the program; C38: run_tests; C39: processes; C41: processes that end early. Specifications: spec/Main.tla, MainMC.tla, Cli.tla."""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess

import vlib

PRELUDE = '''import functools, json, os, sys, unittest
import pytest
import rtest


def ran(label):
    seen = {k: os.environ[k] for k in json.loads(os.environ["E2E_KEYS"]) if k in os.environ}
    fd = os.open(os.environ["E2E_LOG"], os.O_WRONLY | os.O_APPEND)
    os.write(fd, (json.dumps([label, seen, os.getpid()]) + "\\n").encode())
    os.close(fd)


def at(owner, rest):
    """The label of a test of a class, wherever it was inherited from."""
    return os.path.relpath(sys.modules[owner.__module__].__file__, os.environ["E2E_ROOT"]) + "::" + owner.__name__ + "::" + rest


def several():
    return ["u", "v"]


def keep(f):
    @functools.wraps(f)
    def call(*args, **kwargs):
        return f(*args, **kwargs)
    return call


def bare(f):
    def call(*args):
        return f(*args)
    return call


@pytest.fixture
def broken():
    raise RuntimeError("no fixture")

'''
GOOD = ("ok", "skip", "skipped", "xfail")
IDLE = ("skip", "nofixture", "early")


class Project:
    """The files of a project, what is collected in them and what there is to run."""

    def __init__(self, rng, runner, fates=None):
        self.interface, runner = runner, runner.replace("api", "pytest")
        self.rng, self.runner = rng, runner
        self.files, self.items, self.cases, self.bad, self.inits, self.links, self.tests = [], [], [], [], [], [], []
        self.ini = {}
        self.packages = set()
        self.made = 0  # helper modules
        self.bases = []  # classes of other files: (file, class)
        self.fates = fates or ["ok", "ok", "ok", "ok", "ok", "fail", "raise", "skip", "exit", "loud", "chdir"]
        if not fates:
            self.fates = self.fates + (["skipped", "xfail", "nofixture", "async", "gen"] if runner == "pytest" else ["async", "gen", "close"])

    def names(self):
        return self.ini.get("file", "test_"), self.ini.get("class", "Test"), self.ini.get("func", "test_")

    def case(self, item, label, fate):
        if fate in ("async", "gen"):  # pytest only warns of what it cannot run
            runs, ok = False, self.runner == "pytest"
        else:
            runs, ok = fate not in IDLE, fate in GOOD + ("loud", "chdir", "close")
        self.cases.append({"i": item, "label": label, "runs": runs, "ok": ok, "dies": fate == "die"})

    def item(self, p, text, warns=False):
        self.items.append({"p": p, "text": text, "warns": warns})
        return len(self.items)

    def body(self, fate, label, pad):
        out = [f"{pad}    ran({label})"]
        out += [pad + "    " + x for x in {
            "die": [self.rng.choice(["os._exit(1)", "os._exit(3)", "os._exit(5)", "os.kill(os.getpid(), 9)", "os.kill(os.getpid(), 15)", "os.kill(os.getpid(), 11)",
                                     "os._exit(255)"] + (["os._exit(0)"] * 3 if self.runner == "native" else []))],
            "fail": ["assert False"], "xfail": ["assert False"], "raise": ["raise ValueError('x')"], "skipped": ["pytest.skip('now')"],
            "exit": [self.rng.choice(["sys.exit(0)", "raise SystemExit('x')", "sys.exit(3)"])], "gen": ["yield 1"],
            "loud": [self.rng.choice(["print('x' * 200000)", "print('y\\n' * 70000, file=sys.stderr)", "os.write(1, b'z' * 150000 + b'\\n')",
                                      "os.write(2, b'z\\n' * 80000)", "print('collected 5 items')"])],
            "chdir": ["os.chdir('/')"], "close": ["sys.stdout.close()"]}.get(fate, [])]
        return out

    def mark(self):
        return "pytest.mark.parametrize" if self.runner == "pytest" or self.rng.random() < 0.4 else "rtest.mark.cases"

    def skip(self):
        return self.rng.choice(["@pytest.mark.skip", "@pytest.mark.skip(reason='x')"] if self.runner == "pytest" else
                               ["@rtest.mark.skip(reason='x')", "@rtest.mark.skip()", "@pytest.mark.skip(reason='x')"])

    def test(self, name, lines, label, me="", pad="", fates=None, simple=False, deco=""):
        """Writes a test function; returns its items: (what follows its name in the id, does it warn, [(what follows in the label, fate)]).
        label makes the expression of a label from that of what follows the name."""
        rng = self.rng
        fates = fates or self.fates
        r = rng.random()
        args = [me] if me else []
        if simple or r < 0.62:
            fate = rng.choice(fates)
            if fate == "skip":
                lines.append(pad + self.skip())
            if fate == "xfail":
                lines.append(pad + "@pytest.mark.xfail")
            if deco:
                lines.append(f"{pad}@{deco}")
            elif fate in ("ok", "fail", "raise", "loud") and rng.random() < 0.15:
                lines.append(pad + rng.choice(["@keep", "@keep" if "z" in me else "@bare", "@keep\n" + pad + "@keep"]))
            lines.append(f"{pad}{'async ' if fate == 'async' else ''}def {name}({', '.join(args + (['broken'] if fate == 'nofixture' else []))}):")
            lines += self.body(fate, label("''"), pad)
            return [("", False, [("", fate)])]
        mark = self.mark()
        known = [f for f in fates if f in ("ok", "fail")] or ["ok"]
        if rng.random() < 0.2:
            lines.append(pad + "@keep")
        if r < 0.78:  # one decorator
            vals = rng.choice([["a", "b"], ["é", "x y"], ["1::2", "[]"], ["p"], ["$HOME", "*"], ["-x", "--", "@f"]])
            fs = [rng.choice(known) for _ in vals]
            lines.append(f'{pad}@{mark}({rng.choice(["v", "v", "v", "v,"])!r}, {vals!r})')
            lines.append(f"{pad}def {name}({', '.join(args + ['v'])}):")
            lines.append(f"{pad}    ran({label(repr('@') + ' + v')})")
            lines.append(f"{pad}    assert v not in {[v for v, f in zip(vals, fs) if f != 'ok']!r}")
            return [(v.encode("unicode_escape").decode(), False, [("@" + v, f)]) for v, f in zip(vals, fs)]
        if r < 0.9:  # stacked
            fate = rng.choice(known)
            lines.append(f'{pad}@{mark}("v", [1, 2])')
            lines.append(f'{pad}@{mark}("w,x", [("a", True), ("b", None)])')
            lines.append(f"{pad}def {name}({', '.join(args + ['v', 'w', 'x'])}):")
            lines.append(f"{pad}    ran({label(repr('@') + ' + str(v) + w + str(x)')})")
            lines.append(f"{pad}    assert {fate == 'ok'} or (v, w) != (2, 'a')")
            return [(f"{w}-{x}-{v}", False, [(f"@{v}{w}{x}", fate if (v, w) == (2, "a") else "ok")]) for v in (1, 2) for w, x in (("a", True), ("b", None))]
        fate = rng.choice(known)  # cannot be told without running it
        lines.append(f'{pad}@{mark}("v", several())')
        lines.append(f"{pad}def {name}({', '.join(args + ['v'])}):")
        lines.append(f"{pad}    ran({label(repr('@') + ' + v')})")
        lines.append(f"{pad}    assert {fate == 'ok'} or v != 'u'")
        return [("", True, [("@u", fate), ("@v", "ok")])]

    def record(self, p, scope, items, over=None, cdim=()):
        """The items and cases of a test; over: what happens to all of them; cdim: the values of a decorator of the class."""
        head = "/".join(p[1:]) + "::" + scope
        for suffix, warns, cases in items:
            for z in cdim or [None]:
                whole = "-".join(x for x in (suffix, z) if x) if not warns else ""
                if z is None or not warns or z == cdim[0]:
                    i = self.item(p, head + (f"[{whole}]" if whole else ""), warns)
                for rest, fate in cases:
                    final = over if over and fate not in ("skip", "nofixture") else fate
                    if over == "skip":
                        final = "skip"
                    self.case(i, head + rest + (f"#{z}" if z else ""), final)

    # A class: name, tests {name: items}, over, fates for tests added below it, sealed: no class can have it as a base
    def klass(self, p, name, lines, base=None, spelled=""):
        rng = self.rng
        _, cls, fun = self.names()
        tests = dict(base["tests"]) if base else {}
        over, kind = (base["over"], base["kind"]) if base else ("", "plain")
        if not base and fun == "test_" and rng.random() < 0.12:  # unittest has its own idea of names
            kind, spelled = "unittest", "unittest.TestCase"
        cdim, sealed = [], False
        if not base and kind == "plain" and rng.random() < 0.12:
            cdim, sealed = ["q", "s"], True
            lines.append(f'@{self.mark()}("z", {cdim!r})')
        if not over and rng.random() < 0.1:
            over = "skip"
            lines.append(self.skip())
        lines.append(f"class {name}({spelled}):" if spelled or rng.random() < 0.1 else f"class {name}:")
        fates = [f for f in self.fates if f in ("ok", "fail", "raise", "skip", "exit", "loud")] if kind == "unittest" or over else self.fates
        if not over and "fail" in self.fates and rng.random() < 0.15:
            fates = [f for f in self.fates if f in ("ok", "fail", "raise", "skip")]
            early = rng.random() < 0.5
            hook = ("setUp" if early else "tearDown") if kind == "unittest" else ("setup_method" if early else "teardown_method")
            lines += [f"    def {hook}(self):", "        raise RuntimeError('hook')"]
            over, sealed = "early" if early else "late", True
            tests = {}  # what is inherited may do anything
            if base:
                for n in base["tests"]:
                    lines.append(f"    {n} = None")
        if cdim:
            simple = lambda rest: f"at(type(self), {{0!r}} + {rest} + '#' + z)"  # noqa: E731
        else:
            simple = lambda rest: f"at(type(self), {{0!r}} + {rest})"  # noqa: E731
        for i in range(rng.choice([0, 1, 2] if base else [1, 1, 2, 3])):
            n = f"{fun}m{i}"
            r = rng.random()
            args = "self, z" if cdim else "self"
            if r < 0.1 and kind == "plain" and not cdim:
                sealed = True
                head = "/".join(p[1:]) + f"::{name}::{n}"
                tests[n] = self.test(n, lines, lambda rest: f"{head!r} + {rest}", "", "    ", ["ok"] if "fail" not in fates else ["ok", "fail"], True, "staticmethod")
            elif r < 0.2 and kind == "plain" and not cdim:
                tests[n] = self.test(n, lines, lambda rest: f"at(cls, {n!r} + {rest})", "cls", "    ", ["ok"] if "fail" not in fates else ["ok", "fail"], True, "classmethod")
            elif r < 0.27:
                lines += [f"    @pytest.fixture\n    def {n}(self):", "        ran('never')"] if kind == "plain" else [f"    {n} = 5"]
                tests.pop(n, None)
            elif r < 0.32:
                lines.append(f"    {n} = None")
                tests.pop(n, None)
            else:
                f2 = [f for f in fates if f in ("ok", "fail", "raise", "skip", "loud")] if cdim else fates
                tests[n] = self.test(n, lines, lambda rest: simple(rest).format(n), args, "    ", f2, kind == "unittest")
        if rng.random() < 0.15:
            lines += [f"    def {fun}z(self):", "        ran('never')", f"    del {fun}z"]
        if rng.random() < 0.15:
            lines += [f"    class {cls}Inner:", f"        def {fun}z(self):", "            ran('never')"]
        lines += ["    x = 1", ""]
        made = {"name": name, "tests": tests, "over": over, "kind": kind, "sealed": sealed}
        for n, items in tests.items():
            self.record(p, f"{name}::{n}", items, {"late": "raise"}.get(over, over), cdim)
        return made

    def library(self, p):
        """A module beside a test file with a class and a function that look like tests; returns import lines and what is imported."""
        rng = self.rng
        _, cls, fun = self.names()
        self.made += 1
        mod = f"lib_{self.made}"
        lines = []
        name = f"{cls}Shared{self.made}"
        keepi, keepc = len(self.items), len(self.cases)
        made = self.klass(p[:-1] + [mod + ".py"], name, lines)
        del self.items[keepi:], self.cases[keepc:]  # it is no test file
        lines += [f"def {fun}imported():", "    ran('never')"]
        self.files.append((p[:-1] + [mod + ".py"], PRELUDE + "\n".join(lines) + "\n"))
        return self.imports(p, mod, name) + ([f"{self.source(p, mod)[0]} import {fun}imported"] if rng.random() < 0.5 else []), made

    def external(self, p):
        """A module that is not in the project, in a directory of PYTHONPATH or in one that only the test file adds to the path:
        import lines, the class in it, and whether collection refuses its subclasses."""
        rng = self.rng
        self.made += 1
        mod, name = f"ext_{self.made}", f"External{self.made}"
        hidden = self.runner == "native" and rng.random() < 0.5
        init = rng.random() < 0.5
        made = {"name": name, "tests": {}, "over": "", "kind": "plain", "sealed": False}
        lines = []
        if not hidden and not init:
            keepi, keepc = len(self.items), len(self.cases)
            made = self.klass(["o", mod + ".py"], name, lines)
            del self.items[keepi:], self.cases[keepc:]
        else:
            lines += [f"class {name}:"] + (["    def __init__(self):", "        self.x = 2"] if init else ["    x = 1"])
        self.files.append((["o", "hidden" if hidden else "seen", mod + ".py"], PRELUDE + "\n".join(lines) + "\n"))
        found = ["sys.path.insert(0, os.path.join(os.environ['E2E_ROOT'], '..', 'o', 'hidden'))"] if hidden else []
        return found + [f"from {mod} import {name}"], made, init and not hidden

    def source(self, p, mod):
        """How modules beside p are imported: from, and the dotted name for an import statement."""
        pk = []
        d = p[:-1]
        while tuple(d) in self.packages:
            pk.insert(0, d[-1])
            d = d[:-1]
        if pk:
            return self.rng.choice([f"from .{mod}", f"from {'.'.join(pk)}.{mod}"]), f"{'.'.join(pk)}.{mod}"
        return f"from {mod}", mod

    def imports(self, p, mod, name):
        frm, dotted = self.source(p, mod)
        if dotted and self.rng.random() < 0.3:
            self.spelled = f"{dotted}.{name}"
            return [f"import {dotted}"]
        self.spelled = self.rng.choice([f"Near{name}", f"{name}Near"])
        return [f"{frm} import {name} as {self.spelled}"]

    def module(self, p, real=None):
        """A test file at p, or behind a link of that name."""
        rng = self.rng
        _, cls, fun = self.names()
        lines, broken = (["os.chdir('/')"] if rng.random() < 0.04 else []), False
        self.tests.append(p)
        start = len(self.cases)
        head = lambda n: lambda rest: f"{'/'.join(p[1:]) + '::' + n!r} + {rest}"  # noqa: E731
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            n = f"{fun}f{i}"
            r = rng.random()
            if r < 0.06:
                lines += ["@pytest.fixture" + rng.choice(["", "()", "(scope='module')"]), f"def {n}():", "    ran('never')"]
            elif r < 0.1:
                lines += [f"def {n}():", "    ran('never')", f"{n} = {rng.choice(['None', '3', '[1]'])}"]
            elif r < 0.13:
                lines += [f"def {n}():", "    ran('never')", f"del {n}"]
            elif r < 0.17:
                self.record(p, n, self.test(f"impl{i}", lines, head(n), simple=True))
                lines += [f"{n} = impl{i}"]
            else:
                if r < 0.22:
                    lines += [f"def {n}():", "    ran('never')"]
                self.record(p, n, self.test(n, lines, head(n)))
            lines.append("")
        classes = []
        if rng.random() < 0.5:
            for i in range(rng.choice([1, 1, 2])):
                name = f"{cls}{'AB'[i]}"
                if rng.random() < 0.15:
                    lines += [f"class {name}:", "    def __init__(self):", "        pass", f"    def {fun}m(self):", "        ran('never')"]
                    self.inits.append(p)
                    continue
                classes.append(self.klass(p, name, lines))
                if not classes[-1]["sealed"] and rng.random() < 0.5:
                    classes.append(self.klass(p, f"{name}Child", lines, classes[-1], name))
        if not real and rng.random() < 0.3:
            imported, made = self.library(p)
            lines[:0] = imported
            if not made["sealed"]:
                classes.append(self.klass(p, f"{cls}FromLib", lines, made, self.spelled))
        if rng.random() < 0.08:
            imported, made, refused = self.external(p)
            lines[:0] = imported
            if refused:
                lines += [f"class {cls}FromExt({made['name']}):", f"    def {fun}m(self):", "        ran('never')"]
                self.inits.append(p)
            elif not made["sealed"]:
                classes.append(self.klass(p, f"{cls}FromExt", lines, made, made["name"]))
        near = [(q, k) for q, k in self.bases if q[:-1] == p[:-1] and q[-1][:-3].isidentifier()]
        if not real and near and rng.random() < 0.3:
            q, k = rng.choice(near)
            lines[:0] = self.imports(p, q[-1][:-3], k["name"])
            self.klass(p, f"{cls}FromTest", lines, k, self.spelled)
        if rng.random() < 0.3:
            lines += ["def helper():", "    ran('never')", "", f"class Plain{cls}:", f"    def {fun}x(self):", "        ran('never')"]
        if self.runner == "native" and "fail" in self.fates and rng.random() < 0.04:
            lines += [rng.choice(["raise RuntimeError('import')", "import nothing_like_this", "sys.exit(0)"])]
            broken = True
            for c in self.cases[start:]:
                c["runs"] = c["ok"] = False
        if not broken and not real:
            self.bases += [(p, k) for k in classes if not k["sealed"]]
        self.files.append((real or p, PRELUDE + "\n".join(lines) + "\n"))
        if broken and len(self.cases) == start:  # what cannot be imported is only noticed if the file is run
            self.files[-1] = ((real or p), PRELUDE)


def rand(rng, only_runner=None, dying=False):
    runner = only_runner or rng.choice(["pytest", "pytest", "native", "native", "api"])
    few = ["ok"] * rng.choice([3, 6, 12]) + ["die"]
    pr = Project(rng, runner, rng.choice([few, few + ["skip"], few + ["fail", "raise", "loud"]] if dying else [None, None, ["ok"], ["ok", "skip"]]))
    if rng.random() < 0.2:
        pr.ini = {k: v for k, v in (("file", "check_"), ("class", "Spec"), ("func", "check_")) if rng.random() < 0.6}
    dirs = [["r"], ["r", "a"], ["r", "a", "b"], ["r", "s"], ["r", "s", "t"], ["r", "a", "s3"], ["r", "c d"], ["r", "json"]]
    subs = [d for d in (["r", "s"], ["r", "s", "t"], ["r", "a", "s3"]) if rng.random() < 0.4]
    pr.packages = {tuple(d) for d in dirs[1:-2] if rng.random() < 0.35}
    fp = pr.names()[0]
    nodes = [list(d) for d in dirs]
    big = rng.random() < 0.06
    used = {}
    for i in range(rng.choice([12, 20, 30]) if big else rng.choice([0, 1, 2, 2, 3, 4, 5])):
        d = rng.choice(dirs)
        stem = rng.choice([f"m{i}", f"m{i}", f"m{i}", f"ü{i}", f"m {i}", f"m-{i}", "same"])
        if stem == "same" and (tuple(d) not in pr.packages or tuple(d) in used):
            stem = f"m{i}"
        if stem == "same":
            used[tuple(d)] = 1
        p = d + [f"{fp}{stem}.py"]
        if rng.random() < 0.08:
            real = rng.choice([["o"], d]) + [f"impl{i}.py"]
            pr.links.append((p, real))
            pr.module(p, real)
        else:
            pr.module(p)
        nodes.append(p)
    if rng.random() < 0.08:
        pr.links.append((["r", "ln"], ["o", "dir"]))
        p = ["r", "ln", f"{fp}far.py"]
        pr.module(p, ["o", "dir", f"{fp}far.py"])
        nodes += [["r", "ln"], p]
    if rng.random() < 0.08:
        p = rng.choice(dirs) + [f"{fp}bad.py"]
        pr.files.append((p, "def test_x(:\n"))
        pr.bad.append(p)
        nodes.append(p)
    if rng.random() < 0.2:
        p = rng.choice(dirs) + ["other.py"]
        pr.files.append((p, PRELUDE + "def test_o():\n    ran('never')\n"))
        nodes.append(p)
    pr.files += [(list(d) + ["__init__.py"], "") for d in sorted(pr.packages)]
    testpaths = [rng.choice(dirs[1:]) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.15 else []
    given = []
    if rng.random() < 0.5:
        given = [rng.choice([n for n in nodes if n[-1] != "other.py"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.1:
            given.insert(rng.randrange(len(given) + 1), ["r", "nothing.py"])
    n = rng.choice([None, None, "1", "2", "2", "3", "4", "0", "auto", "logical", "x", "-0", "1.5", "16"] if rng.random() < 0.3 else [None, "1", "2", "2", "3"])
    if big:
        n = rng.choice(["2", "5", "16"])
    if dying and n in ("0", "x", "1.5", None):
        n = rng.choice(["1", "2", "3", "4"])
    dist = rng.choice([None, None, None, "load", "loadscope", "loadfile", "worksteal", "no", "each" if rng.random() < 0.3 else "load"])
    env = []
    if rng.random() < 0.3:
        env = [rng.choice(["KA=1", "KB=a=b", "KA=zwei", "KC=", "NOEQ", "KÄ=ü", "KD=x y", "KP=new", "KP="]) for _ in range(rng.choice([1, 2, 3]))]
    return finish(rng, pr, nodes, subs, testpaths, given, n, rng.choice([None] * 5 + [0, 1, 2, 9]), dist, rng.random() < (0.02 if dying else 0.15), env)


def finish(rng, pr, nodes, subs, testpaths, given, n, maxp, dist, only, env):
    api = ""
    if pr.interface == "api":
        n = maxp = dist = None
        only, env = False, []
        # Given paths are relative to the directory that comes first, and a directory that comes first is that
        api = rng.choice(["abs", "rel", "dot", "slash"])
        if not given or given[0][-1].endswith(".py") and rng.random() < 0.5:
            api = rng.choice([api, "none"])
    return {"runner": pr.interface, "api": api, "flags": rng.choice([[], [], ["-q"], ["--tb=short", "-rA"], ["-v"]]) if api else [], "files": pr.files, "items": pr.items, "cases": pr.cases, "bad": pr.bad, "inits": pr.inits, "tests": pr.tests, "links": pr.links, "ini": pr.ini, "nodes": nodes,
            "subs": subs, "testpaths": testpaths, "given": given, "abs": [rng.random() < 0.2 for _ in given], "n": n, "max": maxp, "dist": dist,
            "only": only, "env": env, "order": rng.random() < 0.5}


def from_design(run, want):
    text = run.design("MainMC")
    dying = run.prop == "C41"
    scn = [s for s in vlib.printed(text, "SCN") if (s["runner"] == want or not want) and any(c["dies"] for c in s["cases"]) == dying]
    run.rng.shuffle(scn)
    # Those that get as far as running anything are few among all combinations
    def stopped(s):
        return s["only"] or s["n"]["text"] == [120] or s["dist"]["text"] == [110] or [1, 5] in s["given"] or (s["bad"] and [1, 3] in s["given"])
    runs = [s for s in scn if not stopped(s)]
    stops = [s for s in scn if stopped(s)]
    k = run.pick(36, 250)
    out = []
    names = {1: "r", 2: "test_a.py", 3: "test_bad.py", 4: "d", 5: "missing.py"}
    for s in runs[:k] + stops[:k // 2]:
        pr = Project(run.rng, s["runner"])
        p = ["r", "test_a.py"]
        lines = []
        f = s["cases"][0]
        fate = "die" if f["dies"] else {(1, 1): "ok", (1, 0): "fail", (0, 1): "skip", (0, 0): "nofixture"}[int(f["runs"]), int(f["ok"])]
        if fate == "nofixture" and s["runner"] == "native":
            fate = "fail"
        if fate == "skip":
            lines.append(f"@{'rtest' if s['runner'] == 'native' else 'pytest'}.mark.skip(reason='x')")
        lines.append(f"def test_one({'broken' if fate == 'nofixture' else ''}):")
        lines += pr.body(fate, "'one'", "")
        pr.case(pr.item(p, "test_a.py::test_one"), "one", fate)
        good, end = s["cases"][1]["ok"], s["cases"][1]["dies"]
        lines += ['@pytest.mark.parametrize("v", several())', "def test_two(v):", "    ran('two@' + v)", f"    if {end} and v == 'u':", *pr.body("die", "''", "    ")[1:], f"    assert {good} or v != 'u'"]
        i = pr.item(p, "test_a.py::test_two", True)
        pr.case(i, "two@u", "die" if end else "ok" if good else "fail")
        pr.case(i, "two@v", "ok")
        lines += ["class TestInit:", "    def __init__(self):", "        pass", "    def test_x(self):", "        ran('never')"]
        pr.inits.append(p)
        pr.files.append((p, PRELUDE + "\n".join(lines) + "\n"))
        b = ["r", "test_bad.py"]
        if s["bad"]:
            pr.bad.append(b)
        pr.tests += [p, b]
        pr.files.append((b, "def test_x(:\n" if s["bad"] else "x = 1\n"))

        def opt(o):
            return "".join(map(chr, o["text"])) if o["given"] else None

        out.append(finish(run.rng, pr, [["r"], p, ["r", "d"], b], [], [], [[names[x] for x in g] for g in s["given"]], opt(s["n"]),
                          s["max"]["v"] if s["max"]["given"] else None, opt(s["dist"]), s["only"], []))
    return out


# ---------------------------------------------------------------- running the program


class Names:
    def __init__(self):
        self.table = {}

    def num(self, s):
        return self.table.setdefault(s, len(self.table) + 1)

    def path(self, p):
        return [self.num(c) for c in p]


def codes(s):
    return [ord(c) for c in s]


def scope(text):
    """The class or the file of an id."""
    parts = text.split("[")[0].split("::")
    return "::".join(parts[:2]) if len(parts) > 2 else parts[0]


def config(sc, nm):
    cli = {"n": {"given": sc["n"] is not None, "text": codes(sc["n"] or "")}, "max": {"given": sc["max"] is not None, "v": sc["max"] or 0},
           "dist": {"given": sc["dist"] is not None, "text": codes(sc["dist"] or "")}, "env": [codes(e) for e in sc["env"]],
           "cpus": {"auto": 1, "logical": 1}}
    links = {tuple(p): real for p, real in sc["links"]}
    return {"cli": cli, "runner": sc["runner"], "only": sc["only"], "root": nm.path(["r"]), "given": [nm.path(g) for g in sc["given"]],
            "testpaths": [nm.path(g) for g in sc["testpaths"]], "nodes": [nm.path(g) for g in sc["nodes"]],
            "items": [{"p": nm.path(i["p"]), "n": nm.num(i["text"]), "warns": i["warns"], "scope": nm.num(scope(i["text"])),
                       "real": nm.path(links.get(tuple(i["p"]), i["p"]))} for i in sc["items"]],
            "cases": [{"i": c["i"], "runs": c["runs"], "ok": c["ok"], "dies": c["dies"]} for c in sc["cases"]],
            "bad": [nm.path(p) for p in sc["bad"]], "inits": [nm.path(p) for p in sc["inits"]],
            "tests": [nm.path(p) for p in sc["tests"]], "subs": [nm.path(p) for p in sc["subs"]], "counted": sc["n"] not in ("auto", "logical")}


def command(sc, top):
    """The working directory and the arguments of a run."""
    paths = [os.path.join(top, *g) if a else "/".join(g[1:]) or "." for g, a in zip(sc["given"], sc["abs"])]
    if sc["runner"] == "api":
        start = {"abs": [os.path.join(top, "r")], "rel": ["r"], "slash": ["./r/"], "dot": ["."], "none": []}[sc["api"]]
        args = start + (paths + sc["flags"] if sc["order"] else sc["flags"] + paths)
        call = "import json, sys; from rtest._rtest import run_tests; sys.exit(run_tests(json.loads(sys.argv[1])))"
        if not args and sc["order"]:
            call = "import sys; from rtest._rtest import run_tests; sys.exit(run_tests())"
        return os.path.join(top, "r") if sc["api"] in ("dot", "none") else top, ["-c", call, json.dumps(args)]
    opts = []
    if sc["n"] is not None:
        opts.append(["-n", sc["n"]] if not sc["n"].startswith("-") else [f"-n{sc['n']}"])
    if sc["max"] is not None:
        opts.append(["--maxprocesses", str(sc["max"])])
    if sc["dist"] is not None:
        opts.append(["--dist", sc["dist"]])
    if sc["only"]:
        opts.append(["--collect-only"])
    if sc["runner"] == "native" or sc["order"]:
        opts.append(["--runner", sc["runner"]])
    opts += [["--env", e] for e in sc["env"]]
    flat = [x for o in opts for x in o]
    return os.path.join(top, "r"), ["-m", "rtest"] + (paths + flat if sc["order"] and paths else flat + paths)


def lay_out(sc, top):
    for d in sc["nodes"]:
        if not d[-1].endswith(".py") and d not in [p for p, _ in sc.get("links", [])]:
            os.makedirs(os.path.join(top, *d), exist_ok=True)
    for p, text in sc["files"]:
        os.makedirs(os.path.join(top, *p[:-1]), exist_ok=True)
        with open(os.path.join(top, *p), "w", encoding="utf-8") as f:
            f.write(text)
    for p, real in sc.get("links", []):
        os.makedirs(os.path.join(top, *p[:-1]), exist_ok=True)
        os.symlink(os.path.relpath(os.path.join(top, *real), os.path.join(top, *p[:-1])), os.path.join(top, *p))
    for d in sc["subs"]:
        with open(os.path.join(top, *d, "pyproject.toml"), "w") as f:
            f.write('[project]\nname = "sub"\n')
    lines = []
    if "file" in sc["ini"]:
        lines.append(f'python_files = ["{sc["ini"]["file"]}*.py"]')
    if "class" in sc["ini"]:
        lines.append(f'python_classes = ["{sc["ini"]["class"]}*"]')
    if "func" in sc["ini"]:
        lines.append(f'python_functions = ["{sc["ini"]["func"]}*"]')
    if sc["testpaths"]:
        lines.append("testpaths = " + json.dumps(["/".join(p[1:]) for p in sc["testpaths"]]))
    if lines:
        with open(os.path.join(top, "r", "pyproject.toml"), "w", encoding="utf-8") as f:
            f.write("[tool.pytest.ini_options]\n" + "\n".join(lines) + "\n")


SUMMARY = re.compile(r"^(collected (?P<n>\d+) items?)?( / )?((?P<e>\d+) errors?)?( / )?((?P<w>\d+) warnings?)?$")


def shown(out, top, nm):
    """The event for what the program printed about its collection, or None."""
    lines = []
    for line in out.split("\n"):
        if re.match(r"=+ test session starts =+$|=== Worker \d+ ===$", line):
            break
        lines.append(re.sub(r"\x1b\[[0-9;]*m", "", line))
    ev = {"ev": "shown", "count": 0, "nerrors": 0, "nwarnings": 0, "ids": [], "errors": [], "warnings": 0}
    found = [i for i, x in enumerate(lines) if x == "No tests collected." or x and SUMMARY.match(x)]
    if not found:
        return None
    at = found[0]
    m = SUMMARY.match(lines[at])
    if m:
        ev.update(count=int(m["n"] or 0), nerrors=int(m["e"] or 0), nwarnings=int(m["w"] or 0))
    def path(text):
        if text.startswith(top + "/"):
            return nm.path(text[len(top) + 1:].split("/"))
        return nm.path(["r"] + text.split("/"))
    for x in lines[:at]:
        m = re.fullmatch(r"_ ERROR collecting (.*) _", x)
        if m:
            ev["errors"].append(path(m[1]))
    rest = lines[at + 1:]
    if rest and rest[0] == "":
        for x in rest[1:]:
            if not x.startswith("  "):
                break
            ev["ids"].append(nm.num(x[2:]))
    after = [x for x in rest[1 + len(ev["ids"]):] if x]  # what follows may also be a quiet pytest with warnings of its own
    if after and re.fullmatch(r"=+ warnings summary =+", after[0]):
        for x in after[1:]:
            if x.startswith("-- Docs"):
                break
            ev["warnings"] += 1
    elif not m:
        ev["nwarnings"] = 0
    if lines[at] == "No tests collected.":
        ev["nwarnings"] = ev["warnings"]
    return ev


def execute(sc, full, work):
    shutil.rmtree(work, True)
    os.makedirs(work)
    lay_out(sc, work)
    log = os.path.join(work, "log")
    open(log, "w").close()
    keys = sorted({e.split("=", 1)[0] for e in sc["env"] if "=" in e})
    env = vlib.full_env(full, E2E_LOG=log, E2E_KEYS=json.dumps(keys), E2E_ROOT=os.path.join(work, "r"), KP="old", LC_ALL="C.UTF-8")
    env["PYTHONPATH"] += os.pathsep + os.path.join(work, "o", "seen")
    nm = Names()
    cfg = config(sc, nm)
    try:
        cwd, args = command(sc, work)
        r = subprocess.run([vlib.PY, *args], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return {"cfg": cfg, "ev": [{"ev": "fail"}]}
    ev = []
    s = shown(r.stdout.decode("utf-8", "replace"), work, nm)
    if s:
        ev.append(s)
    pids = {}
    labels = {c["label"]: k + 1 for k, c in enumerate(sc["cases"])}
    with open(log, encoding="utf-8") as f:
        for line in f:
            label, seen, pid = json.loads(line)
            for p, real in sc.get("links", []):
                a, b = (os.path.relpath(os.path.join(work, *x), os.path.join(work, "r")) for x in (p, real))
                if label.startswith((b + "/", b + "::")):
                    label = a + label[len(b):]
            ev.append({"ev": "ran", "k": labels.get(label, 0), "env": [{"k": codes(a), "v": codes(b)} for a, b in seen.items()],
                       "pid": pids.setdefault(pid, len(pids) + 1)})
    m = re.search(r"^ERROR: file or directory not found: (.*)$", r.stderr.decode("utf-8", "replace"), re.M)
    named = []
    if m:
        named = nm.path(m[1][len(work) + 1:].split("/") if m[1].startswith(work + "/") else ["r"] + m[1].split("/"))
    ev.append({"ev": "end", "code": r.returncode, "named": named})
    shutil.rmtree(work, True)
    return {"cfg": cfg, "ev": ev}


def check(run, replay=None):
    full = vlib.build_full()
    if replay:
        scenarios = [replay]
    else:
        want = {"C35": "pytest", "C36": "native", "C38": "api"}.get(run.prop)
        walks = from_design(run, want)
        n = run.pick(300, 3000)
        scenarios = walks + [rand(run.rng, want, run.prop == "C41") for _ in range(n)]
        run.notes["scenarios"] = {"from_design": len(walks), "random": n}
    base = os.path.join(vlib.scratch(), "e2e")
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        traces = list(pool.map(lambda x: execute(x[1], full, os.path.join(base, str(x[0]))), enumerate(scenarios)))
    if run.prop == "C41":
        def ran(t):
            return {e["k"] for e in t["ev"] if e["ev"] == "ran" and e["k"]}
        dead = [t for t in traces if any(t["cfg"]["cases"][k - 1]["dies"] for k in ran(t))]
        run.notes["runs"] = {"with a dead process": len(dead), "where that left something out":
                             sum(any(c["runs"] and k not in ran(t) for k, c in enumerate(t["cfg"]["cases"], 1)) for t in dead)}
    run.validate("MainTrace", list(zip(scenarios, traces)))
    run.assumptions += ["the parser of ruff is replaced by Python's own (harness/ruff); the code above it is rtest's",
                        "test files outside packages have different names, and paths no brackets; fixtures and plugins are left to pytest; tests are defined unconditionally by def, class, plain assignment of a name and import; unittest classes only with the default python_functions"]
