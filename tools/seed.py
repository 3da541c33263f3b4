"""python3 tools/seed.py SPEC.py...: builds and tries planted bugs.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python, asserts).
Works in a copy of /repo, so that /repo itself is not touched."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = "1afb2ea"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
export TTPCACHEFOLDER="$t" PYTHONDONTWRITEBYTECODE=1 DEMO_REPO="$PWD" DEMO_TMP="$t"
cd "$t" && timeout 120 /opt/venv/bin/python "$d/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.environ["DEMO_REPO"])
import logging
logging.disable(logging.CRITICAL)
from ttp import ttp

'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def tests(wt):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    x = os.path.join(wt, "junit.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300",
        "--continue-on-collection-errors", "-W", "ignore", "-o", "junit_family=xunit2", "--junitxml=" + x],
       cwd=os.path.join(wt, "test/pytest"), env=env)
    import xml.etree.ElementTree as ET
    return {"%s::%s" % (t.get("classname"), t.get("name")) for t in ET.parse(x).iter("testcase")
            if not any(c.tag in ("failure", "error", "skipped") for c in t)}


def main():
    base = tempfile.mkdtemp(prefix="seed_")
    wt0 = os.path.join(base, "wt0")
    sh(["cp", "-a", "/repo", wt0])
    sh(["git", "checkout", "-q", "--", "."], cwd=wt0)
    good = tests(wt0)
    sh(["git", "clean", "-fdqx"], cwd=wt0)
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        wt = os.path.join(base, ns["ID"])
        sh(["cp", "-a", wt0, wt])
        for f, old, new in ns["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns["ID"], "NOT APPLIED", f, s.count(old), old)
                continue
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=wt).stdout
        out = os.path.join(os.environ.get("SEED_OUT", os.path.join(V, "seeded")), ns["ID"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + ns["DEMO"].lstrip("\n"))
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        base_text = {f: sh(["git", "show", BASE + ":" + f], cwd="/repo").stdout.splitlines() for f, _, _ in ns["EDITS"]}
        own = [x for f in base_text for x in diff.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:] not in base_text[f]]
        if own:
            print(ns["ID"], "changes lines of own commits:", own[:3])
        lost = good - tests(wt)
        r0 = sh(["bash", os.path.join(out, "demo.sh")], cwd=wt0)
        r1 = sh(["bash", os.path.join(out, "demo.sh")], cwd=wt)
        ok = not lost and r0.returncode == 0 and r1.returncode != 0
        print(ns["ID"], "VALID" if ok else "NOT VALID", "tests lost: %d %s; demo clean %d, patched %d" % (len(lost), sorted(lost)[:2], r0.returncode, r1.returncode))
        if r0.returncode:
            print(r0.stderr[-800:])
        elif not r1.returncode:
            print("   the demonstration passes with the change")
        if not ok:
            shutil.rmtree(out)
        elif not os.environ.get("SEED_NOCHECK"):
            for prop in [ns["PROPERTY"]] + ns.get("ALSO", []):
                c = sh([sys.executable, os.path.join(V, "driver/check.py"), prop, "quick"], cwd=V,
                       env=dict(os.environ, TTP_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"))
                print("   ", prop, "CAUGHT" if c.returncode == 1 else "MISSED (%d)" % c.returncode, c.stdout.splitlines()[-1:] , c.stderr[-300:] if c.returncode == 2 else "")
        sys.stdout.flush()
        shutil.rmtree(wt)
    shutil.rmtree(base)


main()
