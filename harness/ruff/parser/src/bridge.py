"""Answers one JSON line per request: the syntax tree of a Python source as ast.parse sees it.

A request is a line with the length in bytes and then the source. Nodes are lists: kind, start, end, fields...
"""

import ast
import json
import re
import sys

sys.set_int_max_str_digits(0)
sys.setrecursionlimit(20000)
SURROGATE = re.compile("[\ud800-\udfff]")


def text(s):
    return SURROGATE.sub("\ufffd", s)


class Conv:
    def __init__(self, source):
        self.source = source
        self.starts = [0]
        for line in re.split(r"(?<=\n)|(?<=\r)(?!\n)", source):
            self.starts.append(self.starts[-1] + len(line.encode()))

    def pos(self, n):
        if not hasattr(n, "lineno"):
            return [0, 0]
        return [self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset]

    def many(self, xs):
        return [self(x) for x in xs]

    def opt(self, x):
        return None if x is None else self(x)

    def params(self, a):
        pos = a.posonlyargs + a.args
        dflt = [None] * (len(pos) - len(a.defaults)) + a.defaults
        both = [[self.arg(p), self.opt(d)] for p, d in zip(pos, dflt)]
        n = len(a.posonlyargs)
        return [both[:n], both[n:], a.vararg and self.arg(a.vararg),
                [[self.arg(p), self.opt(d)] for p, d in zip(a.kwonlyargs, a.kw_defaults)], a.kwarg and self.arg(a.kwarg)]

    def arg(self, a):
        return [*self.pos(a), a.arg, self.opt(a.annotation)]

    def keywords(self, ks):
        return [[*self.pos(k), k.arg, self(k.value)] for k in ks]

    def comps(self, gs):
        return [[self(g.target), self(g.iter), self.many(g.ifs), bool(g.is_async)] for g in gs]

    def if_clauses(self, n):
        """ruff keeps elif branches in one flat list."""
        if not n.orelse:
            return []
        e = n.orelse
        if len(e) == 1 and isinstance(e[0], ast.If):
            return [[self(e[0].test), self.many(e[0].body)], *self.if_clauses(e[0])]
        return [[None, self.many(e)]]

    def __call__(self, n):
        return [type(n).__name__, *self.pos(n), *self.fields(n)]

    def fields(self, n):
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            return [self.many(n.decorator_list), n.name, self.params(n.args), self.opt(n.returns), self.many(n.body)]
        if t is ast.ClassDef:
            return [self.many(n.decorator_list), n.name, self.many(n.bases), self.keywords(n.keywords), self.many(n.body)]
        if t in (ast.Return, ast.Expr, ast.Await, ast.Yield, ast.YieldFrom, ast.Starred):
            return [self.opt(n.value)]
        if t is ast.Delete:
            return [self.many(n.targets)]
        if t is ast.Assign:
            return [self.many(n.targets), self(n.value)]
        if t is ast.AugAssign:
            return [self(n.target), type(n.op).__name__, self(n.value)]
        if t is ast.AnnAssign:
            return [self(n.target), self(n.annotation), self.opt(n.value), bool(n.simple)]
        if t in (ast.For, ast.AsyncFor):
            return [self(n.target), self(n.iter), self.many(n.body), self.many(n.orelse)]
        if t is ast.While:
            return [self(n.test), self.many(n.body), self.many(n.orelse)]
        if t is ast.If:
            return [self(n.test), self.many(n.body), self.if_clauses(n)]
        if t in (ast.With, ast.AsyncWith):
            return [[[self(i.context_expr), self.opt(i.optional_vars)] for i in n.items], self.many(n.body)]
        if t is ast.Match:
            return [self(n.subject), [[self.opt(c.guard), self.many(c.body)] for c in n.cases]]
        if t is ast.Raise:
            return [self.opt(n.exc), self.opt(n.cause)]
        if t.__name__ in ("Try", "TryStar"):
            return [self.many(n.body), [[self.opt(h.type), h.name, self.many(h.body)] for h in n.handlers], self.many(n.orelse), self.many(n.finalbody)]
        if t is ast.Assert:
            return [self(n.test), self.opt(n.msg)]
        if t is ast.Import:
            return [[[*self.pos(a), a.name, a.asname] for a in n.names]]
        if t is ast.ImportFrom:
            return [n.module, [[*self.pos(a), a.name, a.asname] for a in n.names], n.level]
        if t in (ast.Global, ast.Nonlocal):
            return [n.names]
        if t.__name__ == "TypeAlias":
            return [self(n.name), self(n.value)]
        if t is ast.BoolOp:
            return [type(n.op).__name__, self.many(n.values)]
        if t is ast.NamedExpr:
            return [self(n.target), self(n.value)]
        if t is ast.BinOp:
            return [self(n.left), type(n.op).__name__, self(n.right)]
        if t is ast.UnaryOp:
            return [type(n.op).__name__, self(n.operand)]
        if t is ast.Lambda:
            return [self.params(n.args), self(n.body)]
        if t is ast.IfExp:
            return [self(n.test), self(n.body), self(n.orelse)]
        if t is ast.Dict:
            return [[[self.opt(k), self(v)] for k, v in zip(n.keys, n.values)]]
        if t in (ast.Set, ast.List, ast.Tuple):
            return [self.many(n.elts)]
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp):
            return [self(n.elt), self.comps(n.generators)]
        if t is ast.DictComp:
            return [self(n.key), self(n.value), self.comps(n.generators)]
        if t is ast.Compare:
            return [self(n.left), self.many(n.comparators)]
        if t is ast.Call:
            return [self(n.func), self.many(n.args), self.keywords(n.keywords)]
        if t is ast.Constant:
            v = n.value
            if v is None:
                return ["None", ""]
            if v is Ellipsis:
                return ["Ellipsis", ""]
            if isinstance(v, bool):
                return ["bool", str(v)]
            if isinstance(v, str):
                return ["str", text(v)]
            if isinstance(v, bytes):
                return ["bytes", v.hex()]
            if isinstance(v, complex):
                return ["complex", repr(v.imag)]
            if isinstance(v, int) and v >= 2 ** 64:
                token = ast.get_source_segment(self.source, n)
                if token[:2].lower() in ("0x", "0o", "0b"):
                    return ["int", token]  # ruff keeps the token of such a number
            return [type(v).__name__, repr(v)]
        if t is ast.Attribute:
            return [self(n.value), n.attr]
        if t is ast.Subscript:
            return [self(n.value), self(n.slice)]
        if t is ast.Name:
            return [n.id]
        if t is ast.Slice:
            return [self.opt(n.lower), self.opt(n.upper), self.opt(n.step)]
        return []


def main():
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while line := inp.readline():
        source = inp.read(int(line)).decode()
        try:
            answer = ["ok", Conv(source).many(ast.parse(source).body)]
        except Exception as e:
            answer = ["error", text(f"{type(e).__name__}: {e}")]
        out.write(json.dumps(answer).encode() + b"\n")
        out.flush()


main()
