#!/usr/bin/env python3-vt
"""rerun.py <replay file>: runs the recorded input against the code in /repo again."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyver import run, cases    # noqa: E402

data = json.load(open(sys.argv[1], encoding="utf-8"))
print("property %s: %s" % (data["property"], data.get("what")))
jobs = data.get("job")
for job in jobs if isinstance(jobs, list) else [jobs] if jobs else []:
    for name, text in (job.get("files") or {}).items():
        print("--- %s\n%s" % (name, text))
    (_, (r,)), = run.execute([cases.Case([job], None, "replay")])
    print("=== result: %s" % json.dumps(r)[:4000])
print("expected: %s\nactual then: %s" % (json.dumps(data.get("expected"))[:2000], json.dumps(data.get("actual"))[:2000]))
for o in data.get("failed_obligations", []):
    print("%s %s: %s" % (o["status"], o["obligation"], o["detail"][:300]))
