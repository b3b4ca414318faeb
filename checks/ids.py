"""C34: the ids of the cases of parametrized tests. Specifications: spec/CollectIds.tla, CollectIdsMC.tla."""

import os
import re
import shutil

import vlib

HEADER = '''import enum
from enum import Enum, IntEnum
import pytest, rtest

INT = 7
HUGE = 0x1_0000_0000_0000_0000_0000
NEG: int = 12
FLT = 2.50
TXT = "a b"
EMPTY = ""
NOTHING = None
YES = True
SEQ = [1, "x", None]
PAIRS = [(1, "p"), (2, "q")]
NAMES = ["n-1", "n_2"]
TWICE = 1
TWICE = "two"
AGAIN = 1
AGAIN = len("abc")
MORE = 1
MORE += 4
BOTH = ALSO = 6
LATE = [1, 2]
LATE = list("ab")
DYN = [x for x in (8, 9)]


class Config:
    MAX = 100
    NAME = "né"
    LIMITS = (5, 6)
    class Inner:
        VALUE = "deep"
        class Last:
            ROOT = 1.5


class Derived(Config):
    OWN = 3


class Color(Enum):
    RED = 1
    GREEN = "g"


class Shade(enum.Enum):
    DARK = 1
    BLACK = 1


class Level(IntEnum):
    LOW = 1


class Word(str, Enum):
    HI = "hi"


class Spoken(Enum):
    LOUD = 1
    def __str__(self):
        return "loud!"


class Holder:
    class Mood(Enum):
        GOOD = 1


class Plain:
    pass


class Args:
    def __init__(self, *a):
        self.a = a


def give():
    return "given"


def give_list():
    return [1, 2]


'''


def codes(s):
    return [ord(c) for c in s]


def txt(s):
    return {"k": "txt", "s": codes(s)}


def string(s):
    return {"k": "str", "s": codes(s)}


BOX = {"k": "box", "s": []}
NONE = {"k": "none", "s": []}

# Expression, its id, whether rtest documents that it can tell it
FIXED = [("INT", txt("7"), True), ("HUGE", txt(str(16 ** 20)), True), ("NEG", txt("12"), True), ("FLT", txt("2.5"), True), ("TXT", string("a b"), True), ("EMPTY", string(""), True),
         ("NOTHING", txt("None"), True), ("YES", txt("True"), True), ("SEQ", BOX, True), ("TWICE", string("two"), True),
         ("Config.MAX", txt("100"), True), ("Config.NAME", string("né"), True), ("Config.LIMITS", BOX, True),
         ("Config.Inner.VALUE", string("deep"), True), ("Config.Inner.Last.ROOT", txt("1.5"), True), ("Color.RED", txt("Color.RED"), True),
         ("Color.GREEN", txt("Color.GREEN"), True), ("AGAIN", txt("3"), False), ("MORE", txt("5"), False), ("BOTH", txt("6"), False),
         ("ALSO", txt("6"), False), ("Derived.MAX", txt("100"), False), ("Derived.OWN", txt("3"), False), ("Shade.DARK", txt("Shade.DARK"), False),
         ("Shade.BLACK", txt("Shade.DARK"), False), ("Level.LOW", txt("1"), False), ("Word.HI", string("hi"), False),
         ("Spoken.LOUD", txt("loud!"), False), ("Holder.Mood.GOOD", txt("Mood.GOOD"), False), ("Plain()", BOX, False),
         ("Args(1, 'x')", BOX, False), ("give()", string("given"), False), ("give", txt("give"), False), ("Plain", txt("Plain"), False),
         ("len('abc')", txt("3"), False), ("1 + 2", txt("3"), False), ("'a' 'b'", string("ab"), True), ("r'\\n'", string("\\n"), True),
         ("f'{1}x'", string("1x"), False), ("b'by\\xff'", txt("by\\xff"), False), ("lambda: 0", txt("<lambda>"), False), ("[]", BOX, True),
         ("[1, 2]", BOX, True), ("(1, 'a')", BOX, True), ("()", BOX, True), ("{}", BOX, False), ("{'k': 1}", BOX, False), ("{1}", BOX, False),
         ("[x for x in (1, 2)]", BOX, False), ("[Color.RED]", BOX, False), ("[give()]", BOX, False), ("not True", txt("False"), False),
         ("1 if INT else 2", txt("1"), False), ("2 ** 3", txt("8"), False), ("1 < 2", txt("True"), False), ("TXT[0]", string("a"), False),
         ("Color.RED.value", txt("1"), False), ("1j", txt("1j"), False), ("...", BOX, False), ("~1", txt("-2"), False), ("object()", BOX, False),
         ("'tri\"ple'", string('tri"ple'), True), ("'''line\nbreak'''", string("line\nbreak"), True)]
CHARS = ["a", "b", "Z", "0", "1", "-", "_", " ", "::", "[", "]", "/", "\\", "\n", "\r", "\t", "\0", "\x1b", "\x7f", "\x80", "é", "ÿ", "Ā", "ſ", "中", "\u200b", "\ufeff",
         "\uffff", "𝄞", "\U0010ffff", "'", '"', "{", "%", "#", "::test_x", ".", "--x"]
FLOATS = ["1.0", "0.1", "1e100", "1e16", "1e15", "123456789012345680.0", "1e-4", "1e-5", "0.00001234", "1.5e300", "1e22", "1e23", "9007199254740993.0", "5e-324",
          "1e400", ".5", "5.", "1_0.0_1", "0.30000000000000004", "2.2250738585072014e-308", "1E5", "0.0", "100000000000000000000.0"]
INTS = ["0", "1", "7", "42", "1_000", "0x1f", "0o17", "0b101", "0XFF", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1" + "0" * 30, "0x" + "f" * 20,
        "00", "0b" + "1" * 70, "1_000_000_000_000_000_000_000"]


def quote(rng, s):
    """A Python literal for the string s."""
    r = rng.random()
    plain = all(c.isprintable() and c not in "\\'\"" for c in s)
    if plain and r < 0.3:
        return f'"{s}"'
    if plain and r < 0.4 and s:
        return f'"""{s}"""'
    if plain and r < 0.5:
        i = rng.randrange(len(s) + 1)
        return f"'{s[:i]}' \"{s[i:]}\""
    if r < 0.6:
        return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '\\"' else f"\\U{ord(c):08x}" for c in s) + '"'
    if r < 0.7 and all(c.isprintable() and c not in "'" for c in s) and not s.endswith("\\"):
        return f"r'{s}'"
    return ascii(s) if rng.random() < 0.5 else repr(s)


def value(rng, easy=0.7):
    """(expression, id, static)"""
    r = rng.random()
    if r < 0.25:
        s = "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
        return quote(rng, s), string(s), True
    if r < 0.4:
        t = rng.choice(INTS)
        sign = rng.choice(["", "", "", "-", "+"])
        return sign + t, txt(str(eval(sign + t))), True
    if r < 0.5:
        t = rng.choice(FLOATS)
        sign = rng.choice(["", "", "", "-", "+"])
        return sign + t, txt(str(eval(sign + t))), True
    if r < 0.58:
        t = rng.choice(["True", "False", "None"])
        return t, txt(t), True
    sure = [f for f in FIXED if f[2]]
    return rng.choice(sure if rng.random() < easy else FIXED)


def decorator(rng, names, easy):
    """(source, decorator for the specification)"""
    n, k = rng.choice([1, 1, 2, 2, 3, 4]), len(names)
    form = rng.random()
    single = k == 1
    if form < 0.7:
        nametext = repr((rng.choice([",", ", ", " ,"])).join(names) + ("," if rng.random() < 0.1 else ""))
    elif form < 0.85:
        nametext, single = repr(names), False
    else:
        nametext, single = repr(tuple(names)), False
    static = True
    entries, texts = [], []
    r = rng.random()
    if r < 0.12 and k == 1 and single:  # constants as all the values
        c = rng.choice([("SEQ", [txt("1"), string("x"), txt("None")], True), ("NAMES", [string("n-1"), string("n_2")], True),
                        ("Config.LIMITS", [txt("5"), txt("6")], False), ("PAIRS", [BOX, BOX], True), ("LATE", [string("a"), string("b")], False),
                        ("DYN", [txt("8"), txt("9")], False), ("give_list()", [txt("1"), txt("2")], False), ("range(2)", [txt("0"), txt("1")], False),
                        ("[x for x in (3, 4)]", [txt("3"), txt("4")], False), ("(x for x in (3, 4))", [txt("3"), txt("4")], False),
                        ("Color", [txt("Color.RED"), txt("Color.GREEN")], False), ("{3: 4}", [txt("3")], False), ("'ab'", [string("a"), string("b")], False),
                        ("[*SEQ, 4]", [txt("1"), string("x"), txt("None"), txt("4")], False), ("[1] + [2]", [txt("1"), txt("2")], False),
                        ("SEQ[:1]", [txt("1")], False), ("list(NAMES)", [string("n-1"), string("n_2")], False)])
        argtext, entries, static = c[0], [[v] for v in c[1]], c[2]
    elif r < 0.12 and k == 2:
        argtext, entries = "PAIRS", [[txt("1"), string("p")], [txt("2"), string("q")]]
    else:
        for _ in range(n):
            vs = [value(rng, easy) for _ in names]
            entry = [v[1] for v in vs]
            sure = all(v[2] for v in vs)
            if single:
                t = vs[0][0]
            else:
                o, c = rng.choice(["()", "[]", "()"])
                t = o + ", ".join(v[0] if v[0] != "lambda: 0" else "(lambda: 0)" for v in vs) + ("," if len(vs) == 1 else "") + c
            if rng.random() < 0.03 / easy:
                sure = False
                if rng.random() < 0.5:
                    given = rng.choice(["pid", "p-1", "é"])
                    t = f"pytest.param({', '.join(v[0] if v[0] != 'lambda: 0' else '(lambda: 0)' for v in vs)}, id={given!r})"
                    entry = ("id", string(given))
                else:
                    t = f"pytest.param({', '.join(v[0] if v[0] != 'lambda: 0' else '(lambda: 0)' for v in vs)}, marks=pytest.mark.x)"
            texts.append(t)
            entries.append(entry)
            static = static and sure
        o, c = rng.choice(["[]", "[]", "()"])
        trail = "," if o == "(" and n == 1 else rng.choice(["", ""])
        sep = rng.choice([", ", ",\n    "])
        argtext = o + sep.join(texts) + trail + c
    n = len(entries)
    ids, idtext = [], ""
    r = rng.random()
    if r < 0.2:
        iv = []
        for _ in range(n):
            q = rng.random()
            if q < 0.6:
                s = "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 3])))
                iv.append((quote(rng, s), string(s)))
            elif q < 0.75:
                t = rng.choice(INTS + FLOATS)
                iv.append((t, txt(str(eval(t)))))
            elif q < 0.85:
                t = rng.choice(["True", "False"])
                iv.append((t, txt(t)))
            else:
                iv.append(("None", NONE))
        o, c = rng.choice(["[]", "()"])
        idtext = ", ids=" + o + ", ".join(i[0] for i in iv) + ("," if o == "(" and n == 1 else "") + c
        ids = [i[1] for i in iv]
    elif r < 0.23 and n == 2:
        idtext, ids = ", ids=NAMES", [string("n-1"), string("n_2")]
    elif r < 0.25:
        idtext = ", ids=None"
    elif r < 0.27:
        idtext, static, ids = ", ids=lambda v: 'L'", False, [string("L")] * n
        entries = [[string("L")] * k if isinstance(e, list) else e for e in entries]
        ids = []
    elif r < 0.29:
        idtext, static, ids = ", ids=(str(i) for i in range(9))", False, [string(str(i)) for i in range(n)]
    # A case that names its id in the entry
    if any(isinstance(e, tuple) for e in entries):
        ids = ids or [NONE] * n
        for i, e in enumerate(entries):
            if isinstance(e, tuple):
                ids[i] = e[1]
                entries[i] = [BOX] * k
    r = rng.random()
    if r < 0.03:
        args, static = f"argnames={nametext}, argvalues={argtext}{idtext}", False
    elif r < 0.06:
        args, static = f"{nametext}, argvalues={argtext}{idtext}", False
    elif r < 0.09 and idtext != ", ids=None":
        args, static = f"{nametext}, {argtext}, False{idtext}", False
    else:
        args = f"{nametext}, {argtext}{idtext}"
        if rng.random() < 0.04:
            args, static = args + ", scope='module'", False
    return f"@pytest.mark.parametrize({args})", {"names": [codes(x) for x in names], "entries": entries, "ids": ids, "given": "ids=" in args, "shared": "no", "static": static}


NAMES = ["x", "y", "val", "expected", "a_1", "données"]


def stack(rng, pool, easy):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        if not pool:
            break
        k = min(len(pool), rng.choice([1, 1, 1, 2, 3]))
        names = [pool.pop(rng.randrange(len(pool))) for _ in range(k)]
        out.append((names, decorator(rng, names, easy)))
    total = 1
    kept = []
    for names, (src, d) in out:
        if total * len(d["entries"]) <= 24:
            total *= len(d["entries"])
            kept.append((names, (src, d)))
    return kept


def native_stack(rng, pool):
    """Decorators of the runner of rtest itself: literals only."""
    out = []
    for names, (src, d) in stack(rng, pool, 1.0):
        if ", scope=" in src or ", False" in src or "argvalues=" in src or "param(" in src or "ids=" in src:
            continue
        out.append((names, (src.replace("@pytest.mark.parametrize", "@rtest.mark.cases"), d)))
    return out


def func(rng, name, deco, extra, indent):
    """Source of a test function. deco: decorators bottom up; extra: more argument names."""
    pad = "    " * indent
    lines = []
    for src in [s for _, (s, _) in reversed(deco)]:
        if rng.random() < 0.08:
            lines.append(pad + rng.choice(["@pytest.mark.slow", "@pytest.mark.usefixtures()", "@pytest.mark.skipif(False, reason='parametrize')"]))
        # continuation lines lie within brackets, and strings of several lines are kept as they are
        lines.append(pad + src)
    args = (["self"] if indent else []) + [n for ns, _ in deco for n in ns] + extra
    lines.append(f"{pad}def {name}({', '.join(args)}):")
    lines.append(pad + "    pass")
    return "\n".join(lines) + "\n"


def rand(rng):
    easy = rng.choice([1.0, 0.8, 0.4])
    tests, text = [], HEADER
    for i in range(rng.choice([1, 2, 3])):
        native = rng.random() < 0.12
        pool = list(NAMES)
        deco = native_stack(rng, pool) if native else stack(rng, pool, easy)
        text += func(rng, f"test_f{i}", deco, [], 0) + "\n\n"
        tests.append({"id": f"test_f{i}", "decs": [d for _, (_, d) in deco], "native": native})
    base = None

    for c in range(rng.choice([0, 0, 1, 2])):
        pool = list(NAMES)
        cdeco = stack(rng, pool, easy)[:2] if rng.random() < 0.5 else []
        cargs = [n for ns, _ in cdeco for n in ns]
        derived = base if rng.random() < 0.6 else None
        if derived:  # what is inherited needs the arguments of both classes
            pool = [n for n in pool if n not in derived["args"]]
            if set(cargs) & set(derived["args"]):
                cdeco, cargs = [], []
        name = f"TestC{c}"
        text += "".join(s + "\n" for s in [s for _, (s, _) in reversed(cdeco)])
        text += f"class {name}" + (f"({derived['name']})" if derived else "") + ":\n"
        own = {}
        allargs = cargs + (derived["args"] if derived else [])
        inherited = []
        if derived:  # marks of a base class are its own, but rtest need not tell
            inherited = [dict(d, static=False) for d in derived["decs"]]

        classdecs = inherited + [d for _, (_, d) in cdeco]
        for m in range(rng.choice([1, 1, 2])):
            p = list(pool)
            mdeco = stack(rng, p, easy)[:2]
            mname = f"test_m{rng.randrange(3)}"
            if mname in own:
                continue
            own[mname] = [d for _, (_, d) in mdeco]
            # arguments of classes derived from this one cannot be known: take them all as optional
            src = func(rng, mname, mdeco, allargs + ["**kw"], 1)
            text += src
        text += "\n"
        methods = dict(own)
        if derived:
            for mname, decs in derived["methods"].items():
                methods.setdefault(mname, [dict(d, shared="yes") for d in decs])
        for mname, decs in methods.items():
            tests.append({"id": f"{name}::{mname}", "decs": decs + [dict(d, shared="yes" if len(methods) > 1 else "may") for d in classdecs], "native": False})
        if derived and cdeco and any(m not in own for m in derived["methods"]):
            return rand(rng)  # inherited tests would not take the arguments of this class
        base = {"name": name, "args": allargs, "decs": classdecs, "methods": methods}
    return {"src": text, "tests": tests}


# ---------------------------------------------------------------- from the design


SOURCES = {"a": "'a'", "a-a": "'a-a'", "": "''", "x0": "'x0'", "\n": "'\\n'", "7": "'7'"}


def from_design(run):
    text = run.design("CollectIdsMC", run.pick("CollectIdsMC2.cfg", "CollectIdsMC3.cfg"))
    tests = vlib.printed(text, "SCN")
    run.rng.shuffle(tests)
    out = []

    def source(v, static):
        s = "".join(map(chr, v["s"]))
        if v["k"] == "none":
            return "None"
        if v["k"] == "box":
            return "[]"
        if v["k"] == "txt":
            return s if static else f"int('{s}')"
        return repr(s) if static else f"str({s!r})"

    for i in range(0, len(tests), 12):
        src, made = HEADER, []
        for j, t in enumerate(tests[i:i + 12]):
            deco = []
            for d in t["decs"]:
                names = ["".join(map(chr, n)) for n in d["names"]]
                entries = []
                for e in d["entries"]:
                    vs = [source(v, d["static"]) for v in e]
                    entries.append(vs[0] if len(vs) == 1 else "(" + ", ".join(vs) + ")")
                arg = "[" + ", ".join(entries) + "]"
                if not d["static"] and all(x == "[]" for x in entries):
                    arg = f"list({arg})"
                ids = ", ids=[" + ", ".join(source(v, True) for v in d["ids"]) + "]" if d["ids"] else ""
                deco.append((names, (f"@pytest.mark.parametrize({','.join(names)!r}, {arg}{ids})", d)))
            src += func(run.rng, f"test_f{j}", deco, [], 0) + "\n\n"
            made.append({"id": f"test_f{j}", "decs": t["decs"], "native": False})
        out.append({"src": src, "tests": made})
    return out


# ---------------------------------------------------------------- running the real collection


def execute(batch, sc, top):
    shutil.rmtree(top, True)
    os.makedirs(top)
    with open(os.path.join(top, "test_m.py"), "w", encoding="utf-8", newline="") as f:
        f.write(sc["src"])
    names = {t["id"]: i for i, t in enumerate(sc["tests"])}
    a = batch.ask({"op": "collect", "root": top, "args": []})
    got = [{"ev": "test", "known": True, "t": i + 1, "ids": [], "base": 0, "warned": 0} for i in range(len(sc["tests"]))]
    odd = {"ev": "test", "known": False, "t": 0, "ids": [], "base": 0, "warned": 0}
    out = []

    def find(text):
        for n in sorted(names, key=len, reverse=True):
            head = "test_m.py::" + n
            if text == head:
                return names[n], None
            if text.startswith(head + "[") and text.endswith("]"):
                return names[n], text[len(head) + 1:-1]
        return None, None

    if "ids" not in a or a["errors"]:
        return {"cfg": {"tests": sc["tests"]}, "ev": [odd]}
    for text in a["ids"]:
        i, case = find(text)
        if i is None:
            out.append(odd)
        elif case is None:
            got[i]["base"] += 1
        else:
            got[i]["ids"].append(codes(case))
    for _, text in a["warnings"]:
        m = re.search(r"'(test_m\.py::[^']*)'", text)
        i = find(m.group(1))[0] if m else None
        if i is None:
            out.append(odd)
        else:
            got[i]["warned"] += 1
    return {"cfg": {"tests": sc["tests"]}, "ev": got + out}


def check(run, replay=None):
    top = vlib.build_full()
    if replay:
        scenarios = [replay]
    else:
        walks = from_design(run)
        n = run.pick(700, 9000)
        scenarios = walks + [rand(run.rng) for _ in range(n)]
        run.notes["scenarios"] = {"modules_from_design": len(walks), "random_modules": n}
    work = os.path.join(vlib.scratch(), "t")
    batch = vlib.Batch(None, cmd=[os.path.join(top, "bin", "vc")], env=vlib.clean_env(RUFF_SHIM_PYTHON=vlib.PY))
    pairs = [(sc, execute(batch, sc, work)) for sc in scenarios]
    batch.close()
    run.validate("CollectIdsTrace", pairs)
    run.assumptions += ["the parser of ruff is replaced by Python's own (harness/ruff); the code above it is rtest's",
                        "the text of a number is the one Python gives it; pytest is 8.3",
                        "tests are not parametrized by fixtures, hooks or pytestmark; every decorator has at least one case, and instances do not give themselves a __name__"]
