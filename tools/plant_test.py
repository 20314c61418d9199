#!/usr/bin/env python3
"""tools/plant_test.py ID...: applies each planted change, builds, tests, runs its demo with and
without it, and the quick check of its property; prints one line per change.  Restores /repo."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("passed") or base.get("stable") or base.get("tests"))
    nocheck = "--nocheck" in sys.argv
    for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        out = {"id": i, "property": prop}
        assert sh("git -C /repo status --porcelain").stdout == ""
        try:
            sh("bash /opt/vp/build.sh")
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); out["demo_clean"] = r.returncode
            if r.returncode: out["msg"] = (r.stdout + r.stderr)[-600:]
            a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stderr
            t = sh("bash /opt/vp/test.sh /tmp/plants/out.json")
            o = json.load(open("/tmp/plants/out.json"))
            out["tests_lost"] = sorted(stable - set(o["passed"]))[:3]
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); out["demo_patched"] = r.returncode
            if not nocheck:
                t0 = time.time()
                r = sh("python3 run/check.py " + prop, cwd=ROOT)
                out["check"] = r.returncode; out["secs"] = round(time.time() - t0)
                if r.returncode != 1: out["tail"] = r.stdout[-300:] + r.stderr[-300:]
        finally:
            sh("git -C /repo checkout -- .")
        ok = out["demo_clean"] == 0 and not out["tests_lost"] and out.get("demo_patched")
        print("%-8s %s %s" % ("VALID" if ok else "INVALID", "CAUGHT" if out.get("check") == 1 else "MISSED", json.dumps(out)), flush=True)
    sh("bash /opt/vp/build.sh")
main()
