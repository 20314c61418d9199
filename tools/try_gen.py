import sys; import os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","run")); os.makedirs("/tmp/w",exist_ok=True)
import kit, time, json, re
gen, trace, mode, num, depth, focus = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
seed = int(sys.argv[7]) if len(sys.argv)>7 else 7
exe=kit.build()
cmds=kit.generate(gen+".tla",gen+".cfg",seed,num,depth,{"MODE":mode})
t2=time.time()
try:
    tp=kit.execute(exe,cmds,"/tmp/w","t")
except kit.Crash as c:
    print("CRASH",c.line); 
    for x in kit.history_of(cmds,c.line): print("  ",x)
    print(c.err[:2500]); sys.exit(1)
t3=time.time()
bad=kit.validate(trace+".tla",trace+".cfg",tp,{"FOCUS":focus})
print(len(cmds),"exec %.1f validate %.1f"%(t3-t2,time.time()-t3), "bad", len(bad))
seen={}
for b in bad:
    k=b[1]
    seen[k]=seen.get(k,0)+1
    if seen[k]<=2:
        d=re.sub(r"\s+"," ",b[2]); print("----",b[0],cmds[b[0]-1]); print(d[:900])
print(seen)
