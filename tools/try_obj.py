import sys; import os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","run")); os.makedirs("/tmp/w",exist_ok=True)
import kit, time, json, re
fam, mode, num, depth = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
focus = sys.argv[5] if len(sys.argv)>5 else {"calc":"calc","fresh":"fresh","copy":"copy","part":"valid","early":"fresh","wild":"fresh"}[mode]
seed = int(sys.argv[6]) if len(sys.argv)>6 else 7
t=time.time()
exe=kit.build(); t1=time.time()
try: cmds=kit.generate("GenObj.tla","GenObj.cfg",seed,num,depth,{"FAMILY":fam,"MODE":mode})
except kit.CheckError as x: print(str(x)[-900:]); sys.exit(1)
t2=time.time()
print("gen",len(cmds),"build %.1f gen %.1f"%(t1-t,t2-t1))
try:
    tp=kit.execute(exe,cmds,"/tmp/w","t")
except kit.Crash as c:
    print("CRASH",c.line); 
    for x in kit.history_of(cmds,c.line): print("  ",x)
    print(c.err[:2500]); sys.exit(1)
t3=time.time()
bad=kit.validate("TraceObj.tla","TraceObj.cfg",tp,{"FOCUS":focus})
print("exec %.1f validate %.1f"%(t3-t2,time.time()-t3), "bad", len(bad))
seen={}
for b in bad:
    ev=json.loads(cmds[b[0]-1]); k=(b[1],ev.get("q"),ev.get("op"))
    seen[k]=seen.get(k,0)+1
    if seen[k]<=1:
        d=b[2]; d=re.sub(r"\s+"," ",d)
        print("----",b[0],b[1]); print(d[:1400])
print(seen)
