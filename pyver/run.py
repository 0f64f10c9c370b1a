"""Runs cases in parallel worker processes."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVER_REPO", "/repo")


def python():
    return "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def worker(lines, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYVER_REPO=REPO, PYTHONHASHSEED="0",
               PYTHONWARNINGS="ignore")
    p = subprocess.run([python(), os.path.join(HERE, "worker.py")], input="\n".join(lines) + "\n", text=True,
                       capture_output=True, timeout=timeout, env=env)
    out = [json.loads(x) for x in p.stdout.splitlines()]
    if out and "import_error" in out[0]:
        raise ImportFailure(out[0]["import_error"])
    if len(out) != len(lines):
        raise RuntimeError("worker ended early (%d of %d): %s" % (len(out), len(lines), p.stderr[-800:]))
    return out


class ImportFailure(Exception):
    pass


def execute(cases, timeout=600, procs=8):
    cases = list(cases)
    lines, owner = [], []
    for i, c in enumerate(cases):
        for j in c.jobs:
            lines.append(json.dumps(j))
            owner.append(i)
    if not lines:
        return []
    n = max(1, min(procs, (len(lines) + 19) // 20))
    idx = [list(range(k, len(lines), n)) for k in range(n)]
    flat = [None] * len(lines)
    with ThreadPoolExecutor(n) as ex:
        for ids, res in zip(idx, ex.map(lambda ids: worker([lines[i] for i in ids], timeout), idx)):
            for i, r in zip(ids, res):
                flat[i] = r
    per = [[] for _ in cases]
    for i, r in zip(owner, flat):
        per[i].append(r)
    return list(zip(cases, per))
