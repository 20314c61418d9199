"""ask.py CLASS 'slot=1,2/3,..' ... -- 'query:1,2' ...   runs one object and shows code vs specification"""
import sys, os, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
import kit
def vec(s):
    v, d = [], []
    for x in [y for y in s.split(",") if y]:
        a, _, b = x.partition("/")
        v.append(int(a)); d.append(int(b or 1))
    return v, d
cls, rest = sys.argv[1], sys.argv[2:]
cmds = [{"op": "reset", "comp": "obj"}, {"op": "new", "o": 0, "cls": cls}]
for a in rest:
    if "=" in a:
        n, _, x = a.partition("="); v, d = vec(x)
        cmds.append({"op": "set", "o": 0, "s": n, "v": v, "d": d})
    else:
        n, _, x = a.partition(":"); v, d = vec(x)
        cmds.append({"op": "val", "o": 0, "w": 1, "m": 1} if n == "val" else {"op": "q", "o": 0, "q": n, "a": v, "d": d})
os.makedirs("/tmp/w", exist_ok=True)
exe = kit.build()
tp = kit.execute(exe, [json.dumps(c, separators=(",", ":")) for c in cmds], "/tmp/w", "ask")
bad = {b[0]: b[2] for b in kit.validate("TraceObj.tla", "TraceObj.cfg", tp, {"FOCUS": "calc"})}
for i, ln in enumerate(open(tp), 1):
    e = json.loads(ln)
    if e["op"] in ("q", "val"):
        m = bad.get(i, "")
        m = re.sub(r"\s+", " ", m)
        m = m[m.find("specified |->"):][:300] if m else "ok"
        print(e.get("q"), e.get("a"), kit.decode(e.get("r", [e.get("ok")])), m)
