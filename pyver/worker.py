"""Runs the real parser on prepared files and reports canonical results (one JSON per line).

Executed as a separate process; never imports anything of the verification machinery.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import tempfile
import shutil
import traceback

REPO = os.environ.get("PYVER_REPO", "/repo")
ROOT = "/v1/v2/v3/v4/v5/ROOT"   # the same as in conc.py
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
from pathlib import Path, PurePath  # noqa: E402


def canon(v, depth=0):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float)):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            return {"$float": repr(v)}
        return v
    if depth > 200:
        return {"$deep": True}
    if isinstance(v, PurePath):
        return {"$path": str(v)}
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return {"$": type(v).__name__, "f": {k: canon(x, depth + 1) for k, x in zip(v._fields, v)}}
    if isinstance(v, (list, tuple)):
        return [canon(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {"$dict": [[canon(k, depth + 1), canon(x, depth + 1)] for k, x in v.items()]}
    if hasattr(v, "__attrs_attrs__"):
        return {"$": type(v).__name__, "f": {a.name: canon(getattr(v, a.name, "<unset>"), depth + 1)
                                             for a in v.__attrs_attrs__}}
    return {"$other": type(v).__name__}


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout("timeout")


def containers(v, path, seen, out, depth=0):
    """Every mutable container reachable from a result: id -> paths."""
    if v is None or isinstance(v, (str, bool, int, float, PurePath)) or depth > 60:
        return
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            containers(x, path + "/%d" % i, seen, out, depth + 1)
        return
    out.setdefault(id(v), []).append(path)
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, dict):
        for k, x in v.items():
            containers(x, path + "[%r]" % (k,), seen, out, depth + 1)
    elif isinstance(v, (list, set)):
        for i, x in enumerate(v):
            containers(x, path + "/%d" % i, seen, out, depth + 1)
    elif hasattr(v, "__attrs_attrs__"):
        for a in v.__attrs_attrs__:
            containers(getattr(v, a.name, None), path + "." + a.name, seen, out, depth + 1)


def scribble(v, seen=None, depth=0):
    """Changes everything that can be changed in a result."""
    seen = {} if seen is None else seen
    if v is None or isinstance(v, (str, bool, int, float, PurePath)) or id(v) in seen or depth > 60:
        return
    seen[id(v)] = v
    if isinstance(v, tuple):
        for x in v:
            scribble(x, seen, depth + 1)
        return
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, seen, depth + 1)
        v["scribbled"] = "scribbled"
    elif isinstance(v, list):
        for x in list(v):
            scribble(x, seen, depth + 1)
        v.append("scribbled")
    elif hasattr(v, "__attrs_attrs__"):
        for a in v.__attrs_attrs__:
            x = getattr(v, a.name, None)
            scribble(x, seen, depth + 1)
            if x is None or isinstance(x, (str, bool, int, float)):
                try:
                    setattr(v, a.name, "scribbled")
                except Exception:
                    pass


def tree_hash(root):
    h = {}
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            p = os.path.join(dp, f)
            with open(p, "rb") as fh:
                h[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()
    return h


def call(job, root):
    import pytiled_parser as pp
    what = job["call"]
    if what == "parse_color":
        from pytiled_parser.util import parse_color
        return parse_color(job["arg"])
    arg = job["arg"]
    if what in ("parse_map", "parse_tileset", "parse_world"):
        p = Path(arg) if job.get("relative") else Path(root) / arg
        return getattr(pp, what)(p)
    if what == "layer_json":
        from pytiled_parser.parsers.json.layer import parse
        return parse(json.loads(json.dumps(arg)), Path(root))
    if what == "layer_tmx":
        import xml.etree.ElementTree as ET
        from pytiled_parser.parsers.tmx.layer import parse
        return parse(ET.fromstring(arg), Path(root))
    if what in ("object_json", "object_tmx"):
        import xml.etree.ElementTree as ET
        if what == "object_json":
            from pytiled_parser.parsers.json.tiled_object import parse
            raw = json.loads(json.dumps(arg))
        else:
            from pytiled_parser.parsers.tmx.tiled_object import parse
            raw = ET.fromstring(arg)
        return parse(raw, Path(root)) if job.get("with_dir", True) else parse(raw)
    raise KeyError(what)


def guarded(job, root):
    out = io.StringIO()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(job.get("timeout", 20)))
    try:
        with contextlib.redirect_stdout(out):
            v = call(job, root)
        signal.alarm(0)
        return v, {"ok": True, "stdout": out.getvalue()}
    except Exception as e:  # noqa: BLE001
        signal.alarm(0)
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.relpath(f.filename, REPO), f.lineno) for f in tb if f.filename.startswith(REPO)]
        return None, {"ok": False, "exc": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__],
                      "msg": str(e)[:300], "where": where[-1:] , "stdout": out.getvalue()}
    finally:
        signal.alarm(0)


def setup(job, root):
    for rel, text in job.get("files", {}).items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, dict):  # {"link": target} or {"dir": true} or {"hex": bytes}
            if "link" in text:
                os.symlink(text["link"], p)
            elif "dir" in text:
                os.makedirs(p, exist_ok=True)
            else:
                with open(p, "wb") as fh:
                    fh.write(bytes.fromhex(text["hex"]))
            continue
        with open(p, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)
    base = root[:-len(ROOT)]
    for rel in job.get("decoys", []):  # files that happen to lie where a path could be looked up
        p = os.path.join(root, rel)
        if not os.path.realpath(p).startswith(base + os.sep):
            continue
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "x", encoding="utf-8") as fh:
                fh.write("decoy")
        except (OSError, ValueError):
            pass


def run(job):
    base = os.path.realpath(tempfile.mkdtemp(prefix="pyver-"))
    root = base + ROOT   # deep, so that "../" does not leave it
    os.makedirs(root)
    old = os.getcwd()
    try:
        setup(job, root)
        os.chdir(os.path.join(root, job.get("cwd", ".")))
        if job.get("mode") == "pure":
            return pure(job, root)
        v, r = guarded(job, root)
        if r["ok"]:
            r["value"] = canon(v)
        r["root"] = root
        return r
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


def pure(job, root):
    """Histories of parses: repeat, change earlier results, look for shared containers."""
    problems = []
    before = tree_hash(root)
    jobs = job["jobs"]
    kept = []
    first = {}
    last = None
    for step in job["history"]:
        if "write" in step:   # the world changes between two parses
            for rel in step["write"]:
                if os.path.lexists(os.path.join(root, rel)):
                    os.remove(os.path.join(root, rel))
            setup(dict(files=step["write"]), root)
            for rel in step["write"]:
                os.utime(os.path.join(root, rel), ns=(10 ** 18, 10 ** 18))
            before = tree_hash(root)
            first.clear()
            continue
        i = step["job"]
        v, r = guarded(jobs[i], root)
        if r["stdout"]:
            problems.append("step %r wrote to standard output: %r" % (step, r["stdout"][:80]))
        c = last = canon(v) if r["ok"] else {"exc": r["exc"]}
        if not r["ok"] and not jobs[i].get("may_fail"):
            problems.append("step %r raised %s: %s" % (step, r["exc"], r["msg"]))
        if i in first and first[i] != c:
            problems.append("parse of %r changed between two parses of the same files: %s" % (
                jobs[i]["arg"], first_difference(first[i], c)))
        first.setdefault(i, c)
        if r["ok"]:
            seen, cont = {}, {}
            containers(v, "", seen, cont)
            for paths in cont.values():
                if len(paths) > 1:
                    problems.append("one container is shared inside a result: %s" % (sorted(paths)[:2],))
            for (w, wseen, wi) in kept:
                common = set(seen) & set(wseen)
                if common:
                    x = next(iter(common))
                    problems.append("results of two parses share a container: %s" % (cont[x][:1],))
            kept.append((v, seen, i))
            if step.get("scribble"):
                scribble(v)
    after = tree_hash(root)
    if before != after:
        problems.append("files changed: %r" % sorted(set(before.items()) ^ set(after.items()))[:2])
    out = {"ok": True, "problems": problems[:20], "root": root, "n": len(job["history"])}
    if job.get("last"):
        out["last"] = last
    return out


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %r vs %r" % (path, a, b)
    if isinstance(a, dict):
        for k in set(a) | set(b):
            if a.get(k, "<none>") != b.get(k, "<none>"):
                return first_difference(a.get(k, "<none>"), b.get(k, "<none>"), path + "/" + str(k))
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d vs %d elements" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, path + "/%d" % i)
    return "%s: %.80r vs %.80r" % (path, a, b)


def main():
    try:
        import pytiled_parser  # noqa: F401
    except Exception as e:  # noqa: BLE001
        print(json.dumps({"import_error": "%s: %s" % (type(e).__name__, e)}))
        return
    out = sys.stdout
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = run(job)
        except Exception as e:  # noqa: BLE001
            r = {"ok": False, "worker_error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-600:]}
        root = r.pop("root", None)
        text = json.dumps(r)
        if root:
            text = text.replace(json.dumps(root[:-len(ROOT)])[1:-1], "")
        out.write(text + "\n")
        out.flush()


if __name__ == "__main__":
    main()
