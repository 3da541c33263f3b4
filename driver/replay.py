"""Runs the calls of a replay file on the real code and shows what it returns."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run    # noqa: E402

r = json.load(open(sys.argv[1]))
for t in r["templates"]:
    print(t, "\n")
with run.Work() as w:
    obs = run.run_impl(w, [dict(r.get("job") or {}, id=0, ops=r["calls"])])[0]
for n, (op, o) in enumerate(zip(r["calls"], obs), 1):
    print(n, json.dumps(op)[:500], "->", json.dumps(run.pyval(o)))
print("specified for call %s: %s" % (r["failed_call"], json.dumps(r["specified"])))
