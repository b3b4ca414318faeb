"""Runs worker command lines in forked children: one JSON request per line, one answer per line."""

import json
import os
import signal
import sys
import time

import pytest  # noqa: F401  (so that children need not load it)
import rtest  # noqa: F401
import rtest.worker.__main__ as worker


def child(req):
    os.setsid()
    signal.alarm(req["timeout"] + 30)
    os.environ.update(req["env"])
    os.chdir(req["cwd"])
    null = os.open("/dev/null", os.O_RDONLY)
    os.dup2(null, 0)
    for fd, name in ((1, "out"), (2, "err")):
        f = os.open(os.path.join(req["cwd"], name), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
    sys.stdout = os.fdopen(1, "w", buffering=1, encoding="utf-8", errors="backslashreplace", closefd=False)
    sys.stderr = os.fdopen(2, "w", buffering=1, encoding="utf-8", errors="backslashreplace", closefd=False)
    sys.argv = ["python -m rtest.worker", *req["argv"]]
    code = 1
    try:
        code = worker.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        import traceback

        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os._exit(code)


for line in sys.stdin:
    req = json.loads(line)
    pid = os.fork()
    if pid == 0:
        child(req)
    end = time.time() + req["timeout"]
    answer = {"hang": True}
    pause = 0.0005
    while time.time() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            answer = {"code": os.waitstatus_to_exitcode(status)}
            break
        time.sleep(pause)
        pause = min(pause * 1.5, 0.02)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    sys.__stdout__.write(json.dumps(answer) + "\n")
    sys.__stdout__.flush()
