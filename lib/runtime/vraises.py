"""Runs programs of nested rtest.raises blocks and prints what happened: one JSON program per line, one answer per line."""

import json
import re
import sys

import rtest


class A(Exception):
    pass


class B(Exception):
    pass


class AB(A, B):
    pass


class Base(BaseException):
    pass


class BaseAndA(A, Base):
    pass


class Loud(A):
    def __str__(self):
        return "loud " + "".join(map(str, self.args))


class Falsy(A):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class SubAssert(AssertionError):
    pass


TYPES = [Exception, A, B, AB, AssertionError, Base, BaseException, ValueError, KeyError, LookupError, SystemExit, KeyboardInterrupt, GeneratorExit, StopIteration,
         OSError, FileNotFoundError, UnicodeDecodeError, ExceptionGroup, BaseExceptionGroup, BaseAndA, Loud, Falsy, SubAssert, RecursionError, StopAsyncIteration]
NUM = {t: i + 1 for i, t in enumerate(TYPES)}
INVALID = [5, "ValueError", None, int, (ValueError, 5), (), [ValueError], object, ValueError("x"), (A, (B,)), (None,), type, {ValueError}, lambda: None, (int, A)]


def build(n, text):
    t = TYPES[n - 1]
    if t is UnicodeDecodeError:
        return t("utf-8", b"x", 0, 1, text)
    if t in (ExceptionGroup, BaseExceptionGroup):
        return t(text, [ValueError("inner")])
    if issubclass(t, OSError) and text:
        return t(2, text, "file x")
    if text is None:
        return t()
    return t(text)


class Runner:
    def __init__(self, prog):
        self.prog, self.ev, self.objs = prog, [], []

    def ident(self, e):
        if e is None:
            return 0
        for i, x in enumerate(self.objs):
            if x is e:
                return i + 1
        self.objs.append(e)
        return len(self.objs)

    def tell(self, e):
        if e is None:
            return {"id": 0, "t": 0, "text": [], "cause": 0}
        near = next((NUM[t] for t in type(e).__mro__ if t in NUM), 0)
        return {"id": self.ident(e), "t": near, "text": [ord(c) for c in str(e)], "cause": self.ident(e.__cause__)}

    def stmts(self, q):
        for s in q:
            self.stmt(s)

    def stmt(self, s):
        k = s["s"]
        if k == "raise":
            e = build(s["t"], s["text"])
            if s.get("cause"):
                raise e from ValueError("cause")
            raise e
        if k == "finally":
            try:
                self.stmts(s["body"])
            finally:
                self.stmts(s["fin"])
        if k == "catch":
            try:
                self.stmts(s["body"])
            except BaseException:  # noqa: B036
                pass
        if k == "block":
            self.block(s)

    def block(self, s):
        ctx = s["ctx"]
        if s["bad"] >= 0:
            expected = INVALID[s["bad"]]
        else:
            expected = TYPES[s["exp"][0] - 1] if s["single"] else tuple(TYPES[t - 1] for t in s["exp"])
        kw = {}
        valid = s["bad"] < 0
        if s["match"] is not None:
            kw["match"] = s["match"]
            if s["compiled"]:
                kw["match"] = re.compile(s["match"], s["flags"])
        if s["badmatch"]:
            valid = False
            kw["match"] = {"paren": "(", "bracket": "x[", "star": "*", "int": 5, "esc": "\\"}[s["badmatch"]]
        got, done = None, None
        ended = False
        made = {"ev": "make", "ctx": ctx, "valid": valid, "exp": s["exp"], "pat": s["pat"], "raised": True}
        self.ev.append(made)
        try:
            manager = rtest.raises(expected, **kw)
            made["raised"] = False
            with manager as got:
                self.ev.append({"ev": "begin", "ctx": ctx, "value": self.ident(got.value)})
                body = None
                try:
                    self.stmts(s["body"])
                except BaseException as e:
                    body = e
                    raise
                finally:
                    self.ev.append({"ev": "end", "ctx": ctx, "exc": self.tell(body)})
                    ended = True
        except BaseException as e:  # noqa: B036
            done = e
        self.ev.append({"ev": "done", "ctx": ctx, "exc": self.tell(done), "value": self.ident(got.value) if got is not None else 0})
        if done is not None and (valid or ended):
            raise done

    def run(self):
        try:
            self.stmts(self.prog["body"])
        except BaseException:  # noqa: B036
            pass
        return self.ev


if sys.argv[1:] == ["table"]:
    print(json.dumps({"anc": [[NUM[b] for b in t.__mro__ if b in NUM] for t in TYPES], "names": [t.__name__ for t in TYPES], "invalid": len(INVALID)}))
else:
    for line in sys.stdin:
        sys.stdout.write(json.dumps(Runner(json.loads(line)).run()) + "\n")
