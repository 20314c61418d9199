"""share of failure answers per query in /tmp/w/t.trace"""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
import kit
n, f, nan = collections.Counter(), collections.Counter(), collections.Counter()
ex = {}
for ln in open(sys.argv[1] if len(sys.argv) > 1 else "/tmp/w/t.trace"):
    e = json.loads(ln)
    if e["op"] != "q": continue
    import struct
    r = [struct.unpack(">d", struct.pack(">iI", v[0], v[1] & 0xffffffff))[0] for v in e["r"]]
    n[e["q"]] += 1
    if any(x == -999999 for x in r): f[e["q"]] += 1
    ex.setdefault(e["q"], []).append(r)
for k in n: print(k, n[k], "failed", f[k], [[round(v, 4) for v in x] for x in ex[k][:4]])
