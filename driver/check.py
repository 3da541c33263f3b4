"""Decides one property: check.py PROP [quick|thorough].

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
anything else: the machinery failed."""
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
BATCH = 250

import checks    # noqa: E402
import checks2   # noqa: E402
import checks3   # noqa: E402
import checks4   # noqa: E402
import checks5   # noqa: E402
import checks6   # noqa: E402
import checks7   # noqa: E402
import checks8   # noqa: E402
import checks9   # noqa: E402
import checks10   # noqa: E402
import checks11   # noqa: E402
import checks12   # noqa: E402
import checks13   # noqa: E402
import run       # noqa: E402


def known():
    """{signature: text} of the findings recorded but not repaired"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("known: "):
                f = ln.split(None, 3)
                out[(f[1].split("=")[1], f[2])] = f[3].strip()
    return out


def signature(case, k):
    return hashlib.sha1(json.dumps([case.texts, case.impl, k], sort_keys=True).encode()).hexdigest()[:12]


def total(acc, r):
    acc["bad"] += r["bad"]
    for k in ("states", "transitions", "n"):
        acc[k] += r[k]
    for k, v in r["cov"].items():
        acc["cov"][k] = acc["cov"].get(k, 0) + v
    acc["samples"] += r.get("samples", [])
    for k, v in r.get("extra", {}).items():
        acc["extra"][k] = acc["extra"].get(k, 0) + v if isinstance(v, int) else v


def run_cases(w, prop, cases):
    """validates cases in batches"""
    acc = {"bad": [], "states": 0, "transitions": 0, "n": 0, "cov": {}, "samples": [], "extra": {}}
    for b in range(0, len(cases), BATCH):
        part = cases[b:b + BATCH]
        r = run.validate(w, part, tagname="%s_%d" % (prop, b))
        if b == 0:
            c = part[len(part) // 2]
            r["samples"] = [{"templates": c.texts, "calls": c.impl}]
        total(acc, r)
    return acc


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    spec = {**checks.PROPS, **checks2.PROPS, **checks3.PROPS, **checks4.PROPS, **checks5.PROPS, **checks6.PROPS, **checks7.PROPS, **checks10.PROPS, **checks12.PROPS, **checks13.PROPS}[prop]
    acc = {"bad": [], "states": 0, "transitions": 0, "n": 0, "cov": {}, "samples": [], "extra": {}}
    budget = float(os.environ.get("VERIF_BUDGET", "700"))
    with run.Work() as w:
        round_ = 0
        while True:
            s = seed if round_ == 0 else "%d.%d" % (seed, round_)
            for part in spec["parts"] + [m.PARTS[prop] for m in (checks11, checks12, checks13) if prop in m.PARTS] + [x.part(prop) for x, has in ((checks8, checks8.WORLDS), (checks9, checks9.SCALE)) if prop in has]:
                r = part(w, s, tier, round_)
                if isinstance(r, list):
                    r = run_cases(w, prop, r)
                total(acc, r)
            round_ += 1
            if acc["bad"] or time.time() - t0 > (budget if tier == "thorough" else int(os.environ.get("VERIF_QUICK_S", 40))) or tier != "thorough" and round_ == 3:
                break
    for a in spec.get("cover", ()):
        if not acc["cov"].get(a) and not acc["bad"]:
            raise run.Broken("action %s was never taken" % a)
    if acc["n"] == 0 or acc["states"] == 0:
        raise run.Broken("nothing was explored")
    kn, seen, viol = known(), set(), []
    for n, (c, k, o, e) in enumerate(acc["bad"]):
        sig = signature(c, k)
        if (prop, sig) in kn:
            if sig not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, sig)]))
            seen.add(sig)
            continue
        viol.append((sig, c, k, o, e))
    for sig, c, k, o, e in viol[:5]:
        f = os.path.join(EVID, "replay_%s_%s.json" % (prop, sig))
        with open(f, "w") as fh:
            json.dump({"property": prop, "signature": sig, "kind": c.meta.get("kind"), "templates": c.texts, "job": c.job, "calls": c.impl,
                       "failed_call": k, "observed": run.pyval(o), "specified": None if e is None else run.pyval(e),
                       "rerun": "python3 driver/replay.py %s" % f}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  call %d: observed  %s" % (k, json.dumps(run.pyval(o))[:600]))
        print("  call %d: specified %s" % (k, "(no answer expected to fail)" if e is None else json.dumps(run.pyval(e))[:600]))
    cov = {"states": acc["states"], "transitions": acc["transitions"], "traces_validated_against_impl": acc["n"],
           "samples": acc["samples"][:3], "actions": acc["cov"], "violations": len(viol), "rounds": round_}
    cov.update(acc["extra"])
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump({"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed,
                   "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2)}, fh, indent=1)
    print("%s: %d sessions validated, %d states, %d violations, %.1f s" % (prop, acc["n"], acc["states"], len(viol), time.time() - t0))
    return 1 if viol else 0


def setup():
    """the specification parses, and the code can be imported"""
    import subprocess
    with run.Work() as w:
        with open(w.path("none.json"), "w") as f:
            f.write("[]")
        obs = run.run_impl(w, [{"id": 0, "ops": [{"op": "new", "kw": {}}]}])
        if obs != {0: [{"z": 0}]}:
            raise run.Broken("ttp cannot be used: %r" % obs)
        subprocess.run(["java", "-cp", run.JAR + ":" + os.path.join(os.path.dirname(run.JAR), "CommunityModules-deps.jar"),
                        "tla2sany.SANY", "TtpCheck.tla"], cwd=run.SPEC, check=True, stdout=subprocess.DEVNULL)
    return 0


if __name__ == "__main__":
    try:
        rc = setup() if sys.argv[1:] == ["--setup"] else main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
