"""Running one scenario of processes (vh parallel / native / seq) with fake workers, and reading what happened."""

import json
import os
import shutil
import subprocess
import time

import vlib


class Proc:
    """Start one scenario; .wait() gives {"answer", "out", "err", "events", "hang"}."""

    def __init__(self, bindir, kind, config, plan, work, timeout=60, env=None, prefix=()):
        self.work = work
        self.log = os.path.join(work, "log.ndjson")
        self.answer = os.path.join(work, "answer.json")
        plan_path = os.path.join(work, "plan.json")
        with open(plan_path, "w") as f:
            json.dump(plan, f)
        open(self.log, "w").close()
        tmp = os.path.join(work, "tmp")
        os.makedirs(tmp, exist_ok=True)
        e = vlib.clean_env(FW_PLAN=plan_path, FW_LOG=self.log, TMPDIR=tmp, **(env or {}))
        self.out = open(os.path.join(work, "out"), "wb+")
        self.err = open(os.path.join(work, "err"), "wb+")
        self.p = subprocess.Popen([*prefix, os.path.join(bindir, "vh"), kind, self.answer], stdin=subprocess.PIPE, stdout=self.out,
                                  stderr=self.err, cwd=work, env=e, start_new_session=True)
        try:
            self.p.stdin.write(json.dumps(config).encode())
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        self.timeout = timeout
        self.t0 = time.time()

    def wait(self):
        hang = False
        try:
            self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            hang = True
        try:
            os.killpg(self.p.pid, 9)  # our own session only
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        answer = {}
        if not hang and os.path.exists(self.answer):
            with open(self.answer) as f:
                answer = json.load(f)
        text = {}
        for name, f in (("out", self.out), ("err", self.err)):
            f.seek(0)
            text[name] = f.read()
            f.close()
        with open(self.log, encoding="utf-8") as f:
            events = [json.loads(x) for x in f if x.strip()]
        return {"answer": answer, "out": text["out"], "err": text["err"], "events": events, "hang": hang,
                "code": self.p.returncode, "tmp": sorted(os.listdir(os.path.join(self.work, "tmp")))}


def run_all(make, scenarios, width=6, stop_after_hangs=12):
    """make(sc, workdir) -> Proc. Runs up to `width` at a time, returns results in order."""
    results = [None] * len(scenarios)
    live = []
    base = os.path.join(vlib.scratch(), "p")
    hangs = 0
    i = 0
    while i < len(scenarios) or live:
        while i < len(scenarios) and len(live) < width and hangs < stop_after_hangs:
            work = os.path.join(base, str(i))
            shutil.rmtree(work, True)
            os.makedirs(work)
            live.append((i, work, make(scenarios[i], work)))
            i += 1
        if hangs >= stop_after_hangs and not live:
            break
        j, work, p = live.pop(0)
        results[j] = p.wait()
        if results[j]["hang"]:
            hangs += 4
        elif any(e["ev"] == "stuck" for e in results[j]["events"]):
            hangs += 1
        shutil.rmtree(work, True)
    return results


def plain(data):
    """Text with what is not valid UTF-8, or stands for it, removed."""
    return data.decode("utf-8", "ignore").replace("\ufffd", "")


def rendered(spec, pid):
    """What the fake worker wrote, by its specification."""
    if not spec:
        return b""
    out = []
    n = spec.get("lines", 0)
    for k in range(n):
        s = f"{spec.get('pre', '')}<w{pid}:{k}:{'x' * spec.get('width', 8)}>{spec.get('post', '')}".encode()
        if spec.get("bin"):
            s += b"\xff\xfe\xc3\x28\x80"
        if k + 1 < n or spec.get("nl", True):
            s += b"\n"
        out.append(s)
    return b"".join(out)
