#!/usr/bin/env python3
"""Mutation study: tools/mutate.py OUT.jsonl PER_FILE [SEED] [FILE...]
Applies small changes to single lines of the library in a scratch directory,
drops those the existing tests notice, executes generated histories with the
rest, and judges the differing ones with the trace specifications.  Verdicts:
compile, tests, same (no recorded difference), caught, crash, tolerated."""
import sys, os, re, subprocess, json, random, hashlib, glob, shutil, concurrent.futures as cf, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
import kit
from plans import CALC
OUT, PER = sys.argv[1], int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
ONLY = sys.argv[4:]
R = kit.REPO
W = "/tmp/mut"
os.makedirs(W + "/o", exist_ok=True)
J = int(os.environ.get("J", "7"))
FL = ["-std=c++14", "-O1", "-g0", "-ffp-contract=off", "-I", R + "/include", "-I", kit.VERIF + "/harness"]
lib, har = kit._walk(R + "/src", (".cc",)), kit._walk(kit.VERIF + "/harness", (".cc",))
tst = [f for f in kit._walk("/repo/_build/test", (".o",))]
def ob(s): return W + "/o/" + ("h_" if s in har else "l_") + os.path.basename(s)[:-3] + ".o"
def comp(s, o=None):
    o = o or ob(s)
    if o == ob(s) and os.path.exists(o) and os.path.getmtime(o) > os.path.getmtime(s): return None
    r = subprocess.run(["g++"] + FL + ["-c", s, "-o", o], capture_output=True, text=True)
    return r.stderr if r.returncode else None
def link(objs, exe, gt=False):
    r = subprocess.run(["g++"] + objs + ["-o", exe] + (["/usr/lib/x86_64-linux-gnu/libgtest.a", "-lpthread"] if gt else []), capture_output=True, text=True)
    return r.returncode == 0
with cf.ThreadPoolExecutor(J) as ex:
    for e in ex.map(comp, lib + har):
        assert not e, e
base = json.load(open("/opt/vp/BASELINE.json"))
ids = base["stable"]
ids = [x if isinstance(x, str) else x["id"] for x in ids]

# ---- corpora
CORP = []
def add(name, gen, tr, focus, num=0, depth=0, env=None): CORP.append(dict(name=name, gen=gen, tr=tr, focus=focus, num=num, depth=depth, env=env or {}))
for fams in CALC.values():
    for f in fams:
        add("calc-" + f, "GenObj", "TraceObj", "calc", 100 if f not in ("sagger", "linereloader", "lineunloader") else 60, 40, {"FAMILY": f, "MODE": "calc"})
add("fresh", "GenObj", "TraceObj", "fresh", 500, 60, {"FAMILY": "all", "MODE": "fresh"})
add("copy", "GenObj", "TraceObj", "copy", 500, 60, {"FAMILY": "all", "MODE": "copy"})
add("wild", "GenObj", "TraceObj", "fresh", 250, 60, {"FAMILY": "all", "MODE": "wild"})
add("early", "GenObj", "TraceObj", "fresh", 200, 50, {"FAMILY": "held", "MODE": "early"})
add("part", "GenObj", "TraceObj", "valid", 900, 50, {"FAMILY": "all", "MODE": "part"})
add("partv", "GenObj", "TraceObj", "valid", 600, 40, {"FAMILY": "values", "MODE": "part"})
add("pairs", "GenPairs", "TraceObj", "fresh", 0, 0, {"FAMILY": "all", "MODE": "fresh", "SEED": 1})
for m in ("unit", "vector", "helper"): add("base-" + m, "GenBase", "TraceBase", m, 400, 60, {"MODE": m})
add("line-edit", "GenLine", "TraceLine", "edit", 400, 45, {"MODE": "edit"})
add("line-query", "GenLine", "TraceLine", "coord", 300, 60, {"MODE": "query"})
add("parts", "GenParts", "TraceParts", "-", 400, 60, {})
def prep(c):
    cp = "%s/%s.cmds" % (W, c["name"])
    if not os.path.exists(cp):
        if c["gen"] == "GenPairs":
            hs, _, _ = kit.emit_states(c["gen"], c["env"]); cmds = [x for h in sorted(hs) for x in h]
        else:
            cmds = kit.generate(c["gen"] + ".tla", c["gen"] + ".cfg", 11, c["num"], c["depth"], c["env"], 900)
        open(cp, "w").write("\n".join(cmds) + "\n")
    c["cp"] = cp
    c["cmds"] = open(cp).read().splitlines()
kit.build()
with cf.ThreadPoolExecutor(4) as ex: list(ex.map(prep, CORP))
def run(exe, cp, tp, t=120):
    try: return subprocess.run([exe, cp, tp], capture_output=True, timeout=t).returncode
    except subprocess.TimeoutExpired: return -14
assert link([ob(s) for s in lib + har], W + "/vh0")
def base_run(c):
    rc = run(W + "/vh0", c["cp"], W + "/%s.base" % c["name"], 600)
    assert rc == 0, (c["name"], rc)
    c["base"] = open(W + "/%s.base" % c["name"]).read().splitlines()
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(base_run, CORP))
print("corpora", sum(len(c["cmds"]) for c in CORP), "commands"); sys.stdout.flush()

# ---- mutants of one line
NUM = re.compile(r"(?<![\w.])(\d+\.?\d*(?:e-?\d+)?)(?![\w.])")
def mutants(line):
    s = line.rstrip("\n")
    code = s.split("//")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "/", "case", "namespace", "using")): return
    def rep(a, b, n): yield n, s[:a[0]] + b + s[a[1]:]
    for m in re.finditer(r"<=|>=|==|!=|&&|\|\||(?<![<>-])[<>](?![<>=])|(?<= )[-+*/](?= )|\+\+|\+=|-=|\btrue\b|\bfalse\b|kXy|kXz|kYz|std::min|std::max|std::abs|std::sin|std::cos|\.x\b|\.y\b|\.z\b", code):
        t = m.group()
        if t in "<>" and ("std::" in code and "<" in code and re.search(r"(list|vector|Point\dd|cast|map|pair)\s*<", code)): continue
        alt = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["<="], ">": [">="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"],
               "+=": ["-="], "-=": ["+="], "true": ["false"], "false": ["true"], "kXy": ["kXz"], "kXz": ["kYz", "kXy"], "kYz": ["kXz"], "std::min": ["std::max"], "std::max": ["std::min"],
               "std::abs": [""], "std::sin": ["std::cos"], "std::cos": ["std::sin"], ".x": [".y"], ".y": [".z", ".x"], ".z": [".y"], "++": ["--"]}[t]
        for b in alt: yield "%s->%s" % (t, b), s[:m.start()] + b + s[m.end():]
    for m in NUM.finditer(code):
        if "\"" in code: break
        v = m.group(1)
        for b in ([str(int(v) + 1)] if v.isdigit() else ["(%s*1.02)" % v]): yield "num %s" % v, s[:m.start()] + b + s[m.end():]
    if re.match(r"^\s+[\w\.\->\[\]\*\(\)]+ (=|\+=|-=) .*;$", code) or re.match(r"^\s+[\w\.\->]+\(.*\);$", code):
        yield "delete", ""
    m = re.match(r"^(\s+(?:\} else )?if )\((.*)\) \{$", code)
    if m: yield "if false", m.group(1) + "(false && (%s)) {" % m.group(2)
rng = random.Random(SEED)
tasks = []
for f in sorted(lib):
    if ONLY and not any(o in f for o in ONLY): continue
    L = open(f).read().split("\n")
    ms = []
    for i, l in enumerate(L):
        for op, new in mutants(l) or ():
            if new != l: ms.append((f, i, op, l, new))
    rng.shuffle(ms)
    tasks += ms[:PER]
rng.shuffle(tasks)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
tasks = [t for t in tasks if (os.path.relpath(t[0], R), t[1] + 1, t[4]) not in done]
print(len(tasks), "mutants"); sys.stdout.flush()
mu = threading.Lock(); cnt = {}
def segs(cmds):
    idx = [i for i, c in enumerate(cmds) if kit.is_reset(c)] + [len(cmds)]
    return list(zip(idx, idx[1:]))
for c in CORP: c["segs"] = segs(c["cmds"])
def judge(exe, d, c, tp, rc):
    got = open(tp, errors="replace").read().splitlines() if os.path.exists(tp) else []
    if rc != 0:
        return ("crash", c["name"], len(got))
    diff = [s for s in c["segs"] if got[s[0]:s[1]] != c["base"][s[0]:s[1]]]
    if not diff: return None
    random.Random(3).shuffle(diff)
    pick = diff[:15]
    p = d + "/j.trace"
    open(p, "w").write("\n".join(x for s in pick for x in got[s[0]:s[1]]) + "\n")
    try: bad = kit.validate(c["tr"] + ".tla", c["tr"] + ".cfg", p, {"FOCUS": c["focus"]}, 400)
    except kit.CheckError as x: return ("error", c["name"], str(x)[-300:])
    if bad: return ("caught", c["name"], "%d/%d histories differ: %s" % (len(diff), len(c["segs"]), bad[0][1]))
    k = next(k for k in range(*diff[0]) if got[k] != c["base"][k])
    return ("tolerated", c["name"], [len(diff), len(c["segs"]), json.dumps(kit.decode(json.loads(c["base"][k])))[:300], json.dumps(kit.decode(json.loads(got[k])))[:300]])
def one(t):
    f, i, op, old, new = t
    d = "%s/w%d" % (W, threading.get_ident() % 100000); os.makedirs(d, exist_ok=True)
    L = open(f).read().split("\n"); L[i] = new
    src = d + "/" + os.path.basename(f); open(src, "w").write("\n".join(L))
    o = d + "/m.o"
    res = {"file": os.path.relpath(f, R), "line": i + 1, "op": op, "old": old, "new": new}
    if comp(src, o): return dict(res, verdict="compile")
    lo = [o if s == f else ob(s) for s in lib]
    link(tst + lo, d + "/t", True)
    try: r = subprocess.run([d + "/t", "--gtest_filter=" + ":".join(ids)], capture_output=True, timeout=60, cwd=d); ok = r.returncode == 0
    except subprocess.TimeoutExpired: ok = False
    if not ok: return dict(res, verdict="tests")
    link(lo + [ob(s) for s in har], d + "/vh")
    last = dict(res, verdict="same")
    for c in CORP:
        tp = d + "/x.trace"
        rc = run(d + "/vh", c["cp"], tp)
        if rc == 0 and open(tp, "rb").read() == ("\n".join(c["base"]) + "\n").encode(): continue
        j = judge(d + "/vh", d, c, tp, rc)
        if j is None: continue
        if j[0] in ("caught", "crash"): return dict(res, verdict=j[0], by=j[1], detail=j[2], also=last.get("tol"))
        last = dict(last, verdict=j[0], tol=(last.get("tol") or []) + [j[1:]])
    return last
def guarded(t):
    try: r = one(t)
    except Exception as x: r = {"file": t[0], "line": t[1] + 1, "op": t[2], "old": t[3], "new": t[4], "verdict": "error", "detail": repr(x)[-500:]}
    with mu:
        open(OUT, "a").write(json.dumps(r) + "\n")
        cnt[r["verdict"]] = cnt.get(r["verdict"], 0) + 1
        if sum(cnt.values()) % 20 == 0: print(cnt); sys.stdout.flush()
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(guarded, tasks))
print(cnt)
