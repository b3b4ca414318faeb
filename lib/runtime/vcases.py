"""What generated case modules call: logs expansions and the arguments bodies receive. VRUN_LOG names the log."""

import collections
import enum
import json
import os
import sys

from rtest.mark import expand_parametrize

_log = os.open(os.environ["VRUN_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)


class Color(enum.Enum):
    RED = 1


class Level(enum.IntEnum):
    LOW = 1


class Obj:
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Named:
    __name__ = "own_name"


class Str(str):
    pass


Pair = collections.namedtuple("Pair", "left right")


def helper():
    pass


lam = lambda: None  # noqa: E731


def t(s):
    return {"k": "text", "t": [ord(c) for c in s]}


def seq(*xs):
    return {"k": "seq", "xs": list(xs)}


# Values and how they read: text of strings, str() of numbers and None, parts of sequences joined, names of what has
# one, repr() of the rest
POOL = [(i, t(str(i))) for i in range(10)]
POOL += [(s, t(s)) for s in ["", "a", "a_1", "a_1_1", "a_2", "b", "a-b", "1", "None", "ü → 🎉", "x y", "::", "[z]", "a]b[", "1.5", "True", "-", "nul\0", " a", "b ", "\t", " ", "A", "a\\b", "\x7f", "line\nline", "/p/q.py::r"]]
POOL += [(x, t(s)) for x, s in [(None, "None"), (True, "True"), (False, "False"), (1.5, "1.5"), (float("nan"), "nan"), (float("inf"), "inf"), (-0.0, "-0.0"), (1e300, "1e+300"),
                                (-7, "-7"), (10**30, "1" + "0" * 30), (Level.LOW, "1"), (Str("a"), "a"), (Obj("a"), "a"), (Obj("a"), "a"), (Obj(""), ""), (b"x", "b'x'"),
                                ({"a": 1}, "{'a': 1}"), ({1}, "{1}"), (frozenset(), "frozenset()"), (Ellipsis, "Ellipsis"), (1j, "1j"), (Color.RED, "<Color.RED: 1>"),
                                (int, "int"), (len, "len"), (helper, "helper"), (lam, "<lambda>"), (Named(), "own_name"), (ValueError, "ValueError"), (Obj, "Obj"), (range(2), "range(0, 2)")]]
POOL += [(x, t(repr(x))) for x in [{"k": "v" * 100}, frozenset(range(50)), b"z" * 200, {"a": [1] * 40, "b": None}, Obj("long " * 30)]]
POOL += [((), seq()), ([], seq()), ((1, "a"), seq(t("1"), t("a"))), ([1, "a"], seq(t("1"), t("a"))), (("a", (None, [2.0])), seq(t("a"), seq(t("None"), seq(t("2.0"))))),
         (("a_1",), seq(t("a_1"))), (Pair(1, "b"), seq(t("1"), t("b"))), ((len, {}), seq(t("len"), t("{}"))), (([], ()), seq(seq(), seq()))]
POOL += [(x, t(s)) for x, s in [(0.1 + 0.2, "0.30000000000000004"), (0.3, "0.3"), (1.0, "1.0"), (1e16, "1e+16"), (1e-7, "1e-07"), (12345.678901234567, "12345.678901234567"),
                                (10**18 + 1, "1000000000000000001"), (2**53 + 1, "9007199254740993"), (-(10**6), "-1000000")]]
V = [v for v, _ in POOL]
_decs = {}


def token(v):
    """Number of a value, from 1; 0 for one that is not ours."""
    for i, x in enumerate(V):
        if x is v:
            return i + 1
    for i, x in enumerate(V):
        # Only what cannot change may be another object
        if isinstance(v, (int, float, str)) and type(x) is type(v) and repr(x) == repr(v):
            return i + 1
    return 0


def write(ev):
    os.write(_log, (json.dumps(ev) + "\n").encode())


def dec(i, d):
    _decs[i] = d
    return d


def ids_alone(d):
    def fresh(**kw):
        pass

    try:
        return [case.case_id for case in expand_parametrize(_decs[d](fresh))]
    except Exception:
        return []


def codes(s):
    return [ord(c) for c in s] if isinstance(s, str) else [-1]


def expand(f, fn, ds):
    try:
        cases = [{"id": codes(c.case_id), "args": [[n, token(v)] for n, v in c.kwargs.items()]} for c in expand_parametrize(fn)]
    except Exception:
        write({"ev": "expand", "f": f, "ok": False, "cases": [], "given": []})
        return
    write({"ev": "expand", "f": f, "ok": True, "cases": cases, "given": [[codes(x) for x in ids_alone(d)] for d in ds]})


def step(ev):
    write(ev)


def body(f, kw):
    sys.stdout.write(json.dumps({"f": f, "args": [[n, token(v)] for n, v in kw.items()]}))
