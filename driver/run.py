"""Runs cases on the real code and validates them against the specification."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
REPO = os.environ.get("TTP_REPO", "/repo")
PY = os.environ.get("TTP_PYTHON", "/opt/venv/bin/python")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Broken(Exception):
    """the machinery itself failed"""


class Work:
    """a scratch directory, removed at the end"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="ttpv_")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *n):
        return os.path.join(self.dir, *n)


def impl_env(w, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("TTP")}
    cache = w.path("cache")
    os.makedirs(cache, exist_ok=True)
    env.update(PYTHONDONTWRITEBYTECODE="1", TTPCACHEFOLDER=cache, PYTHONHASHSEED="0")
    env.update(extra or {})
    return env


def run_impl(w, jobs, tagname="j", procs=8, env=None, timeout=600):
    """{id: obs}; a process that dies yields the observation 'died'"""
    if not jobs:
        return {}
    procs = max(1, min(procs, (len(jobs) + 19) // 20))
    parts = [jobs[n::procs] for n in range(procs)]

    def one(n):
        jf, of = w.path("%s_%d.json" % (tagname, n)), w.path("%s_%d.out" % (tagname, n))
        todo, got = list(parts[n]), {}
        while todo:
            with open(jf, "w") as f:
                json.dump(todo, f)
            cwd = w.path("cwd_%s_%d" % (tagname, n))
            os.makedirs(cwd, exist_ok=True)
            try:
                r = subprocess.run([PY, os.path.join(HERE, "impl.py"), REPO, jf, of], cwd=cwd,
                                   env=impl_env(w, env), timeout=timeout, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, start_new_session=True)
                err = r.stderr.decode(errors="replace")[-2000:]
            except subprocess.TimeoutExpired:
                err = "timeout"
            done = []
            if os.path.exists(of):
                with open(of) as f:
                    for ln in f:
                        if ln.endswith("\n"):
                            o = json.loads(ln)
                            got[o["id"]] = o["obs"]
                            done.append(o["id"])
                os.unlink(of)
            rest = [j for j in todo if j["id"] not in got]
            if rest:
                if os.environ.get("VERIF_DEBUG"):
                    print(err)
                got[rest[0]["id"]] = [{"x": "died"}]
                rest = rest[1:]
            todo = rest
        return got

    out = {}
    with ThreadPoolExecutor(procs) as ex:
        for g in ex.map(one, range(procs)):
            out.update(g)
    return out


def tlc(w, module, cfg, env=None, workers=8, extra=(), timeout=800, tagname="t"):
    """runs TLC; returns (stdout, states, distinct)"""
    cf = w.path("%s.cfg" % tagname)
    with open(cf, "w") as f:
        f.write(cfg)
    meta = w.path("meta_%s" % tagname)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-cp",
           JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar"),
           "tlc2.TLC", "-config", cf, "-metadir", meta, "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
           *extra, os.path.join(SPEC, module)]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out: " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    txt = r.stdout.decode(errors="replace")
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
    st = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return txt, st[0], st[1], r.returncode


def printed(txt, word):
    """records printed as "WORD {json}" """
    out = []
    for ln in txt.split("\n"):
        if ln.startswith('"%s ' % word):
            s = json.loads(ln) if '\\' in ln else ln[1:-1]
            out.append(json.loads(s[len(word) + 1:]))
    return out


def pyval(t):
    (k, v), = t.items()
    if k == "l":
        return [pyval(x) for x in v]
    if k == "d":
        return {a: pyval(b) for a, b in (v.items() if isinstance(v, dict) else ())}
    if k == "z":
        return None
    if k == "x":
        return "<<%s>>" % v
    return v


CFG = "SPECIFICATION Spec\n"


def validate(w, cases, module="TtpCheck.tla", invs=(), tagname="v", workers=8, timeout=800, env=None):
    """runs cases on the code and on the specification.
    returns dict(bad=[(case, op index, observed, expected)], states, transitions, coverage)"""
    t0 = time.time()
    jobs = [c.impl_json(n) for n, c in enumerate(cases)]
    obs = run_impl(w, jobs, tagname=tagname, env=env)
    t1 = time.time()
    return check_obs(w, cases, obs, module, invs, tagname, workers, timeout, impl_s=t1 - t0)


def check_obs(w, cases, obs, module="TtpCheck.tla", invs=(), tagname="v", workers=8, timeout=800, impl_s=0):
    t1 = time.time()
    bad, spec = [], []
    for n, c in enumerate(cases):
        o = obs[n]
        if len(o) != len(c.ops):    # died or hung part-way
            bad.append((c, len(o), o[-1], None))
            continue
        spec.append(c.spec_json(n, o))
    states = trans = 0
    cov = {}
    left_out = 0
    while spec:
        cf = w.path("cases_%s.json" % tagname)
        with open(cf, "w") as f:
            json.dump(spec, f)
        cfg = CFG + "".join("INVARIANT %s\n" % x for x in invs if not x.startswith("["))
        cfg += "".join("PROPERTY %s\n" % x[1:] for x in invs if x.startswith("["))
        txt, gen, dist, rc = tlc(w, module, cfg, env={"TTP_CASES": cf}, tagname=tagname, workers=workers, timeout=timeout)
        # a session in which the specification has no value for a call (it says nothing of it) is left out, and counted
        at = re.findall(r"^/\\ c = (\d+)$", txt, re.M) if "when TLC was evaluating" in txt or "TLC was unable to fingerprint" in txt else []
        if at and left_out < 1 + len(cases) // 100:
            left_out += 1
            if os.environ.get("VERIF_DEBUG"):
                print("left out:", cases[spec[int(at[-1]) - 1]["id"]].texts)
            del spec[int(at[-1]) - 1]
            continue
        v = {x["id"]: x for x in printed(txt, "VERDICT")}
        if "No error has been found" not in txt or len(v) != len(spec):
            raise Broken("TLC gave no verdict on %d of %d cases\n%s" % (len(spec) - len(v), len(spec), txt if os.environ.get("VERIF_DEBUG") else txt[-6000:]))
        for s in spec:
            x = v[s["id"]]
            for k, m in (x["cov"] or {}).items():
                cov[k] = cov.get(k, 0) + m
            if x["bad"]:
                bad.append((cases[s["id"]], x["bad"], s["obs"][x["bad"] - 1], x["exp"]))
        trans, states = gen, dist
        break
    return {"bad": bad, "states": states, "transitions": trans, "n": len(cases) - left_out, "cov": cov, "extra": {"left_out": left_out},
            "impl_s": impl_s, "tlc_s": time.time() - t1}
