#!/usr/bin/env python3
"""Line coverage of /repo by the generated histories: tools/coverage.py [workdir].
Compiles the library with gcov in a scratch directory and runs the commands of
every generator once; prints the lines never executed."""
import sys, os, subprocess, glob, json, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
import kit
W = sys.argv[1] if len(sys.argv) > 1 else "/tmp/cov"
os.makedirs(W, exist_ok=True)
for f in glob.glob(W + "/*.gcda") + glob.glob(W + "/*.gcov"): os.unlink(f)
lib = kit._walk(kit.REPO + "/src", (".cc",)); har = kit._walk(kit.VERIF + "/harness", (".cc",))
def comp(s):
    cov = ["--coverage"] if s in lib else []
    o = "%s/%s.o" % (W, os.path.basename(s)[:-3])
    if os.path.exists(o) and os.path.getmtime(o) > os.path.getmtime(s): return o
    subprocess.check_call(["g++", "-std=c++14", "-O0", "-g1", "-I", kit.REPO + "/include", "-I", kit.VERIF + "/harness", "-c", s, "-o", o] + cov, cwd=W)
    return o
J = int(os.environ.get("J", "4"))
with cf.ThreadPoolExecutor(J) as ex: objs = list(ex.map(comp, lib + har))
exe = W + "/vh"
subprocess.check_call(["g++", "--coverage"] + objs + ["-o", exe])
jobs = []
for mode in ("calc", "copy"): jobs.append(("GenObj", {"FAMILY": "all", "MODE": mode}, 300, 50))
for fam in ("all", "values"): jobs.append(("GenObj", {"FAMILY": fam, "MODE": "part"}, 300, 50))
for mode in ("unit", "vector", "helper"): jobs.append(("GenBase", {"MODE": mode}, 200, 50))
for mode in ("edit", "query"): jobs.append(("GenLine", {"MODE": mode}, 120, 45))
jobs.append(("GenParts", {}, 200, 50))
def gen(j): return kit.generate(j[0] + ".tla", j[0] + ".cfg", 5, j[2], j[3], j[1], 900)
kit.build()
with cf.ThreadPoolExecutor(J) as ex: cmds = list(ex.map(gen, jobs))
for j, c in zip(jobs, cmds):
    try: kit.execute(exe, c, W, "t", 900)
    except kit.Crash as x: print("CRASH", j, x.line, x.err[:300])
for s in lib:
    b = os.path.basename(s)[:-3]
    subprocess.run(["gcov", "-o", W, b + ".gcda"], cwd=W, capture_output=True)
    g = W + "/" + b + ".cc.gcov"
    if not os.path.exists(g): print("no data", b); continue
    miss = [l.rstrip() for l in open(g) if l.lstrip().startswith("#####")]
    tot = sum(1 for l in open(g) if l.split(":")[0].strip() not in ("-",) and ":" in l)
    print("== %s: %d of %d lines not executed" % (b, len(miss), tot))
    for l in miss: print(l[9:120])
