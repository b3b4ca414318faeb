"""C29: rtest.raises. Specifications: spec/Raises.tla, Regex.tla, RaisesMC.tla."""

import json
import os
import re
import subprocess

import vlib
import worker

SCRIPT = os.path.join(worker.RUNTIME, "vraises.py")
LETTERS = "xyXé.(\n "
PLAIN = {"icase": False, "dotall": False, "multi": False}


def python(args, data=None):
    r = subprocess.run([vlib.PY, SCRIPT, *args], env=vlib.py_env(), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if r.returncode:
        raise vlib.ToolError(r.stderr[-2000:])
    return r.stdout


# ---------------------------------------------------------------- patterns


def rand_re(rng, depth=3):
    k = rng.random()
    if depth == 0 or k < 0.35:
        r = rng.random()
        if r < 0.6:
            return {"k": "lit", "c": ord(rng.choice(LETTERS))}
        if r < 0.75:
            return {"k": "dot"}
        if r < 0.9:
            return {"k": "set", "cs": [ord(c) for c in rng.sample(LETTERS, rng.choice([1, 2, 3]))], "neg": rng.random() < 0.4}
        return {"k": rng.choice(["bol", "eol"])}
    if k < 0.65:
        return {"k": "seq", "xs": [rand_re(rng, depth - 1) for _ in range(rng.choice([0, 2, 2, 3]))]}
    if k < 0.82:
        return {"k": "alt", "xs": [rand_re(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))]}
    lo = rng.choice([0, 0, 1, 2])
    return {"k": "rep", "x": rand_re(rng, depth - 1), "lo": lo, "hi": rng.choice([-1, -1, lo, lo + 1])}


def show(r):
    k = r["k"]
    if k == "lit":
        return re.escape(chr(r["c"]))
    if k == "set":
        return ("[^" if r["neg"] else "[") + "".join(re.escape(chr(c)) for c in r["cs"]) + "]" if r["cs"] else r"[^\s\S]"
    if k == "seq":
        return "(?:" + "".join(show(x) for x in r["xs"]) + ")"
    if k == "alt":
        return "(" + "|".join(show(x) for x in r["xs"]) + ")"
    if k == "rep":
        n = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((r["lo"], r["hi"])) or "{%d,%s}" % (r["lo"], "" if r["hi"] < 0 else r["hi"])
        return "(?:" + show(r["x"]) + ")" + n
    return {"dot": ".", "bol": "^", "eol": "$"}[k]


def sample(rng, r):
    """A text with something like what r matches."""
    k = r["k"]
    if k == "lit":
        return chr(r["c"])
    if k == "set" and not r["neg"] and r["cs"]:
        return chr(rng.choice(r["cs"]))
    if k in ("seq",):
        return "".join(sample(rng, x) for x in r["xs"])
    if k == "alt":
        return sample(rng, rng.choice(r["xs"]))
    if k == "rep":
        return "".join(sample(rng, r["x"]) for _ in range(r["lo"] + rng.choice([0, 0, 1])))
    return rng.choice(LETTERS) if k in ("dot", "set") else ""


def text(rng, res):
    if res and rng.random() < 0.7:
        s = sample(rng, rng.choice(res))
        return rng.choice(["", "", "x", "\n"]) + s + rng.choice(["", "", "y", "\n"])
    return "".join(rng.choice(LETTERS) for _ in range(rng.choice([0, 1, 2, 4, 6])))


# ---------------------------------------------------------------- programs


class Prog:
    def __init__(self):
        self.n, self.pats = 0, []

    def block(self, exp, body, pat=0, single=False, bad=-1, badmatch="", compiled=False, ignored=()):
        self.n += 1
        b = {"s": "block", "ctx": self.n, "exp": exp, "single": single, "bad": bad, "badmatch": badmatch, "pat": pat, "match": None, "compiled": compiled, "flags": 0, "body": body}
        if pat:
            p = self.pats[pat - 1]
            b["match"] = show(p["re"])
            f = p["flags"]
            b["flags"] = (re.I if f["icase"] else 0) | (re.S if f["dotall"] else 0) | (re.M if f["multi"] else 0)
            if not compiled and b["flags"]:
                b["match"] = "(?" + "".join(c for c, k in (("i", "icase"), ("s", "dotall"), ("m", "multi")) if f[k]) + ")" + b["match"]
                b["flags"] = 0
            b["flags"] = int(b["flags"])
        return b


def design_program(rng, d):
    """A nest of the design: types 1..6 are Exception, A, B, AB, AssertionError, Base here too."""
    g = Prog()
    g.pats = [{"flags": PLAIN, "re": {"k": "lit", "c": 120}}, {"flags": PLAIN, "re": {"k": "set", "cs": [], "neg": False}}]
    body = [{"s": "raise", "t": d["t"], "text": "axb"}] if d["t"] else []
    for b in reversed(d["nest"]):
        body = [g.block(b["exp"], body, b["pat"], single=len(b["exp"]) == 1 and rng.random() < 0.7, compiled=rng.random() < 0.3)]
    return {"body": body, "pats": g.pats}


def rand(rng, table):
    g = Prog()
    res = [rand_re(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    g.pats = [{"flags": {k: rng.random() < 0.25 for k in PLAIN}, "re": r} for r in res]
    few = [rng.randrange(len(table["anc"])) + 1 for _ in range(3)]

    def typ():
        t = rng.choice(few)
        return rng.choice(table["anc"][t - 1]) if rng.random() < 0.5 else t

    def stmts(depth):
        return [x for _ in range(rng.choice([1, 1, 1, 2])) for x in stmt(depth)]

    def stmt(depth):
        r = rng.random()
        if depth == 0 or r < 0.3:
            if rng.random() < 0.2:
                return []
            return [{"s": "raise", "t": typ(), "text": text(rng, res) if rng.random() < 0.9 else "", "cause": rng.random() < 0.15}]
        if r < 0.4:
            return [{"s": "catch", "body": stmts(depth - 1)}]
        if r < 0.48:
            return [{"s": "finally", "body": stmts(depth - 1), "fin": stmts(depth - 1)}]
        exp = [typ() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        bad = rng.randrange(table["invalid"]) if rng.random() < 0.07 else -1
        return [g.block(exp, stmts(depth - 1), pat=rng.randrange(len(res) + 1) if rng.random() < 0.6 else 0, single=len(exp) == 1 and rng.random() < 0.7, bad=bad,
                        badmatch=rng.choice(["paren", "bracket", "star", "int", "esc"]) if rng.random() < 0.05 else "", compiled=rng.random() < 0.4)]

    return {"body": stmts(4), "pats": g.pats}


def run_pairs(programs, table):
    base = {"anc": table["anc"], "assertion": table["names"].index("AssertionError") + 1}
    out = []
    answers = python([], "".join(json.dumps(p) + "\n" for p in programs)).splitlines()
    if len(answers) != len(programs):
        raise vlib.ToolError("vraises.py gave too few answers")
    for p, line in zip(programs, answers):
        ev = json.loads(line)
        if ev:
            out.append((p, {"cfg": {**base, "pats": p["pats"]}, "ev": ev}))
    return out


def check(run, replay=None):
    rng = run.rng
    table = json.loads(python(["table"]))
    if replay:
        programs = [replay]
    else:
        nests = vlib.printed(run.design("RaisesMC", "RaisesMC2.cfg"), "SCN")
        if run.thorough:
            nests += rng.sample(vlib.printed(run.design("RaisesMC", "RaisesMC3.cfg"), "SCN"), 12000)
        programs = [design_program(rng, d) for d in nests]
        n = run.pick(2500, 25000)
        programs += [rand(rng, table) for _ in range(n)]
        run.notes["scenarios"] = {"nests": len(nests), "random_programs": n}
    run.validate("RaisesTrace", run_pairs(programs, table))
    run.assumptions += ["str() of an exception is taken from Python", "patterns use literals, sets, repetition, alternatives, anchors and the flags i, s and m"]
