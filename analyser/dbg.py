import json,sys,engine,models
from terms import *
f=json.load(open('/tmp/f.json'))
p=engine.Prog(f)
def go(name, idx=0, opaque=(), verbose=True):
    fn=p.find(name)[idx]
    u=p.units[fn['i']]
    n=u['body']['argc']
    args=[]; mem={}
    names=u['body']['names']
    for i in range(n):
        t=p.tys[u['body']['locals'][i+1]]
        nm=next((k for k,v in names.items() if v==i+1),f'a{i}') if isinstance(names,dict) else f'a{i}'
        if t['k']=='ref':
            args.append(mk('ref',('P',nm),()))
        else: args.append(mk('init',nm))
    e=engine.Engine(p,opaque=opaque)
    ps=e.run(fn['i'],args)
    for x in ps:
        print('=====',x.kind,x.why,'ret',x.ret)
        for q in x.st.facts.list: print('   F',q)
        for r,v in x.st.mem.items():
            if r[0] in('P','D','H'): print('   M',r,v)
        for l in x.st.logs(): print('   L',l)
        for l in x.st.events(): print('   E',l[0], [str(y) for y in l[1:]])
    print(len(ps),'paths','unmodelled',e.unmodelled)
    return ps
if __name__=='__main__':
    go(sys.argv[1], int(sys.argv[2]) if len(sys.argv)>2 else 0)
