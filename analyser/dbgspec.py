import json,os,sys,time,importlib
from spec import *
t=time.time()
f=json.load(open(sys.argv[2] if len(sys.argv)>2 else '/tmp/f.json'))
p=Prog(f)
if os.environ.get("ONLY"):      # without the rules a check shares with others
    import c06,c09
    for x in (c06,c09):
        if x.__name__!=sys.argv[1]: x.run=lambda sp: None
m=importlib.import_module(sys.argv[1])
sp=Spec(sys.argv[1].upper(),p)
m.run(sp)
seen=set()
for k,t2 in sp.viol:
    if k in seen: continue
    seen.add(k); print('VIOL',k); print(t2)
print({k:v for k,v in sp.entries.items()}, sp.obl_by, 'paths',sp.npaths, 'viol',len(sp.viol), sp.unmodelled)
print(time.time()-t)
