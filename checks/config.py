"""C15: pytest settings from pyproject.toml. Specification: spec/Config.tla, ConfigMC.tla."""

import json
import os
import shutil

import vlib

KEYS = ["testpaths", "python_files", "python_classes", "python_functions"]
TEXTS = ["tests", "test_*.py", "Test*", "", "a b", "ü", "x\ny", "t\"q", "\\d", "a/b", ".", "../x", "./a//b/.", "a/../b/", "//x", "~/t", "$HOME", "[ab]*", "#no", "'", "1", "true", "日本", "\t", "tests"]
NONSTR = ["1", "true", "1.5", "[\"x\"]", "{a = 1}", "1979-05-27", "[]"]
OTHER = {"string": '"tests"', "int": "3", "bool": "true", "float": "1.5", "table": '{a = "b"}', "date": "1979-05-27", "empty_table": "{}",
         "string_list": '"a b"'}
BROKEN = {"invalid": [b"[tool.pytest.ini_options\ntestpaths = [\"a\"]\n", b"[tool.pytest.ini_options]\ntestpaths = [\"a\"\n", b"= 1\n",
                      b"[tool.pytest.ini_options]\ntestpaths = [\"a\"]\ntestpaths = [\"b\"]\n", b"[tool.pytest.ini_options]\ntestpaths = ['a]\n",
                      b"[tool.pytest.ini_options]\ntestpaths = [\"a\"]\nx\n", b"\x00", b"[tool.pytest.ini_options]\npython_files = [\"a\"]\n[tool.pytest.ini_options]\n"],
          "unreadable": [b"[tool.pytest.ini_options]\ntestpaths = [\"\xff\xfe\"]\n", b"\xff\xfe[\x00t\x00"]}


def text_of(sc):
    """TOML text of a usable file."""
    lines = []
    for k in sc["order"]:
        s = sc["set"][k]
        if s["kind"] == "absent":
            continue
        if s["kind"] == "array":
            items = [json.dumps(TEXTS[i["v"]]).replace("\\u", "\\u") if i["str"] else NONSTR[i["v"] % len(NONSTR)] for i in s["items"]]
            v = "[" + ("\n  " if sc["multiline"] and sc["form"] != "inline" else "") + ", ".join(items) + "]"
        else:
            v = OTHER[s["kind"]]
        lines.append((k, v))
    extra = [("addopts", '"-q"'), ("minversion", '"6.0"')] if sc["extra"] else []
    body = extra[:1] + lines + extra[1:]
    if not sc["section"]:
        return {"none": "", "other": "[project]\nname = \"x\"\n", "near": "[tool.pytest]\ntestpaths = [\"a\"]\npython_files = [\"b\"]\n",
                "near2": "[tool.ini_options]\ntestpaths = [\"a\"]\n", "near3": "[pytest.ini_options]\ntestpaths = [\"a\"]\n",
                "scalar": "tool = 1\n", "scalar2": "[tool]\npytest = \"x\"\n", "scalar3": "[tool.pytest]\nini_options = [\"testpaths\"]\n",
                "top": "testpaths = [\"a\"]\npython_classes = [\"X\"]\n"}[sc["form"]]
    if sc["form"] == "header":
        pre = "[build-system]\nrequires = [\"maturin\"]\n\n[tool.other]\ntestpaths = [\"no\"]\n\n" if sc["extra"] else ""
        post = "\n[tool.ruff]\npython_files = [\"no\"]\n" if sc["extra"] else ""
        return pre + "[tool.pytest.ini_options]\n" + "".join(f"{k} = {v}  # comment\n" for k, v in body) + post
    if sc["form"] == "dotted":
        return "[tool]\n" + ("pytest.ini_options = {}\n" if not body else "") + "".join(f"pytest.ini_options.{k} = {v}\n" for k, v in body)
    return "tool = {pytest = {ini_options = {" + ", ".join(f"{k} = {v}" for k, v in body) + "}}}\n"


def finish(sc, rng):
    sc.setdefault("order", rng.sample(KEYS, 4))
    sc.setdefault("multiline", rng.random() < 0.3)
    sc.setdefault("extra", rng.random() < 0.5)
    if sc["file"] == "ok" and sc["section"]:
        sc.setdefault("form", rng.choice(["header", "header", "dotted", "inline"]))
    else:
        sc.setdefault("form", rng.choice(["none", "other", "near", "near2", "near3", "scalar", "scalar2", "scalar3", "top"]))
    sc.setdefault("variant", rng.randrange(100))
    return sc


def rand(rng):
    def setting():
        kind = rng.choice(["absent", "array", "array", "array", "array"] + list(OTHER))
        items = []
        if kind == "array":
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 40])):
                s = rng.random() < 0.85
                items.append({"str": s, "v": rng.randrange(len(TEXTS)) if s else rng.randrange(len(NONSTR))})
        return {"kind": kind, "items": items}

    file = rng.choice(["ok"] * 12 + ["missing", "invalid", "unreadable", "dir"])
    section = file == "ok" and rng.random() < 0.9
    return finish({"file": file, "section": section,
                   "set": {k: setting() if section else {"kind": "absent", "items": []} for k in KEYS}}, rng)


def execute(batch, sc, top):
    shutil.rmtree(top, True)
    os.makedirs(top)
    path = os.path.join(top, "pyproject.toml")
    if sc["file"] == "ok":
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text_of(sc))
    elif sc["file"] == "dir":
        os.makedirs(path)
    elif sc["file"] in BROKEN:
        with open(path, "wb") as f:
            f.write(BROKEN[sc["file"]][sc["variant"] % len(BROKEN[sc["file"]])])
    token = {}
    for i, t in enumerate(TEXTS):
        token.setdefault(t, i)
    cfg = {"file": sc["file"], "section": sc["section"],
           "set": {k: {"kind": s["kind"], "items": [{"str": i["str"], "v": token[TEXTS[i["v"]]] if i["str"] else 0} for i in s["items"]]}
                   for k, s in sc["set"].items()}}
    a = batch.ask({"op": "config", "root": top})
    if "testpaths" not in a:
        return {"cfg": cfg, "ev": [{"ev": "fail"}]}
    return {"cfg": cfg, "ev": [{"ev": "setting", "key": k, "v": [token.get(x, -1) for x in a[k]]} for k in KEYS] + [{"ev": "done"}]}


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        dumps = vlib.printed(run.design("ConfigMC"), "SCN")
        scenarios = []
        for d in dumps:
            d["set"] = {k: {"kind": s["kind"], "items": [{"str": i["str"], "v": run.rng.randrange(len(TEXTS))} for i in s["items"]]}
                        for k, s in d["set"].items()}
            scenarios.append(finish(d, run.rng))
        n = run.pick(1500, 20000)
        scenarios += [rand(run.rng) for _ in range(n)]
        run.notes["scenarios"] = {"from_design": len(dumps), "random": n}
    batch = vlib.Batch(bindir)
    top = os.path.join(vlib.scratch(), "t")
    pairs = [(sc, execute(batch, sc, top)) for sc in scenarios]
    batch.close()
    run.validate("ConfigTrace", pairs)
    run.assumptions += ["the TOML text of a scenario is rendered by the generator; which syntax is invalid is taken from the TOML standard"]
