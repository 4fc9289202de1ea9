import sys,time
sys.path.insert(0,'/verif')
import importlib
from pyvc import engine, solve
pid=sys.argv[1]
m=importlib.import_module('contracts.'+pid)
for c in m.CONTRACTS:
    if len(sys.argv)>2 and sys.argv[2] not in c['name']: continue
    t=time.time()
    E=engine.Engine(c['name'])
    E.explore(c['harness'])
    print('==',c['name'],'paths',E.paths,'completed',E.completed,'%.1fs'%(time.time()-t),'UNSUPPORTED '+E.unsupported if E.unsupported else '', E.cover)
    if E.unsupported: print(getattr(E,'unsupported_tb','')[-1800:])
    for o in sorted(E.obls.values(), key=lambda o: o.ok==o.n) if False else E.obls.values():
        print('  %-60s %d/%d %s'%(o.name,o.ok,o.n,o.how))
        for r,pc,g,_ in [(f+(None,))[:4] for f in o.fails][:2]:
            print('     FAIL',r, {k:v for k,v in list(r.env.items())[:12]}); print('     goal',g[:300]); print('     pc',pc[:12])
print(solve.stats)
