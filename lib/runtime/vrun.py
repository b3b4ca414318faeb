"""What generated tests call: logs every phase, writes and raises as planned. VRUN_PLAN names the plan, VRUN_LOG the log."""

import functools
import json
import os
import sys
import types

with open(os.environ["VRUN_PLAN"], encoding="ascii") as _f:
    PLAN = json.load(_f)
TEXTS = PLAN["texts"]
_log = os.open(os.environ["VRUN_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
FUN, CLS, _ids = {}, {}, {}
_count = {}
_seq = 0
_inst = 0


class Strange(BaseException):
    pass


class SubAssert(AssertionError):
    pass


class BadText(Exception):
    def __str__(self):
        raise ValueError("no text")


def fun(k):
    def keep(f):
        FUN[k] = f
        return f

    return keep


def bare(f):
    """A decorator that hides the function."""

    def call(*args, **kwargs):
        return f(*args, **kwargs)

    return call


def wraps(f):
    return functools.wraps(f)(bare(f))


class Wrapper:
    """A decorator that makes no function of a function."""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)

    def __get__(self, inst, owner=None):
        return self if inst is None else types.MethodType(self, inst)


def cls(k):
    def keep(c):
        CLS[k] = c
        _ids[c] = k
        return c

    return keep


def _deep(n):
    return _deep(n + 1) + 1


def _raise(kind, seq):
    text = f"<!{seq}!>"
    if kind == "assert":
        raise AssertionError(text)
    if kind == "during":
        try:
            {}["key"]
        except KeyError:
            raise AssertionError(text)
    if kind == "because":
        raise AssertionError(text) from ValueError("first")
    if kind == "bare":
        assert seq < 0, text
    if kind == "subassert":
        raise SubAssert(text)
    if kind == "value":
        raise ValueError(text)
    if kind == "strange":
        raise Strange(text)
    if kind == "exit":
        raise SystemExit(text)
    if kind == "exit0":
        sys.exit(0)
    if kind == "genexit":
        raise GeneratorExit(text)
    if kind == "stop":
        raise StopIteration(text)
    if kind == "group":
        raise ExceptionGroup(text, [AssertionError("x")])
    if kind == "badtext":
        raise BadText
    if kind == "surrogate":
        raise ValueError(text + "\udc80\x00")
    if kind == "chained":
        try:
            raise AssertionError("first")
        except AssertionError as e:
            raise KeyError(text) from e
    if kind == "pytest_fail":
        import pytest

        pytest.fail(text)
    if kind == "pytest_skip":
        import pytest

        pytest.skip(text)
    if kind == "rtest_raises":
        import rtest

        with rtest.raises(KeyError):
            pass
    if kind == "deep":
        _deep(0)


def _hit(ev, key, inst, c, f, case):
    global _seq
    _seq += 1
    seq = _seq
    plans = PLAN["by"].get(key + "/" + json.dumps(case)) or PLAN["by"].get(key) or [{}]
    n = _count.get(key, 0)
    _count[key] = n + 1
    plan = plans[n % len(plans)]
    spoke = {"out": -1, "err": -1}
    for name, stream in (("out", sys.stdout), ("err", sys.stderr)):
        if plan.get(name, -1) >= 0:
            try:
                stream.write(f"<@{seq}>{TEXTS[plan[name]]}</@>")
                spoke[name] = plan[name]
            except ValueError:  # closed
                pass
    for name in plan.get("close", []):
        getattr(sys, "std" + name).close()
    kind = plan.get("raise", "ok")
    os.write(_log, (json.dumps({"ev": ev, "inst": inst, "cls": c, "fun": f, "case": case, "seq": seq, "kind": kind, "so": spoke["out"],
                                "se": spoke["err"], "co": "out" in plan.get("close", []), "ce": "err" in plan.get("close", [])}) + "\n").encode())
    _raise(kind, seq)


class Base:
    def __new__(cls):  # collection and the worker refuse classes with an __init__
        global _inst
        self = super().__new__(cls)
        _inst += 1
        self.vinst = _inst
        k = _ids.get(type(self), 0)
        near = next((str(_ids[c]) for c in type(self).__mro__ if c in _ids and f"new{_ids[c]}" in PLAN["by"]), "")
        _hit("new", "new" + near, self.vinst, k, 0, [])
        return self


def phase(ev, k, self):
    _hit(ev, f"f{k}", self.vinst, _ids.get(type(self), 0), k, [])


def body(k, self, args, values, kw=None, owner=None):
    """args: the arguments received, by decorator; values: what every entry of every decorator should be; kw: those for the class."""
    if sys._getframe(1).f_globals["__name__"] not in sys.modules:
        os.write(_log, (json.dumps({"ev": "unregistered"}) + "\n").encode())
    case = []
    for got, entries in zip(args, values):
        case.append(next((j + 1 for j, v in enumerate(entries) if v == got and type(v) is type(got)), -1))
    left = dict(kw or {})
    for c in (owner if isinstance(owner, type) else type(owner)).__mro__:
        for i in range(PLAN["dims"].get(str(_ids.get(c)), 0)):
            d, _, j = str(left.pop(f"c{_ids[c]}_{i + 1}", "")).rpartition("x")
            case.append(100 * _ids[c] + int(j) if d == f"d{_ids[c]}x{i + 1}" else -1)
    case += [-1] * len(left)
    # A static method has no instance; an object that is not one of ours is marked
    inst = 0 if self is None else getattr(self, "vinst", -2)
    _hit("body", f"f{k}", inst, 0 if self is None else _ids.get(type(self), 0), k, case)


def imported(f, path, expected):
    global _seq
    _seq += 1
    sys.stdout.write(f"<@{_seq}>import</@>")
    sys.stderr.write(f"<@{_seq}>import</@>")
    os.write(_log, (json.dumps({"ev": "import", "f": f, "own": os.path.realpath(path) == expected, "seq": _seq}) + "\n").encode())
