import sys,time; sys.path.insert(0,'/verif')
import importlib
from vc import loader, core, contract, concrete, prover
p=sys.argv[1]; only=sys.argv[2] if len(sys.argv)>2 else None
importlib.import_module('contracts.'+p.lower())
for name,fn,opts in contract.REGISTRY[p.upper()]:
    if only and only!=name: continue
    t0=time.time()
    core.reset_state(); L=loader.Loader(); V=contract.SymV(L)
    if '-x' in sys.argv:
        import traceback
    res=contract.run_symbolic(fn,V)
    c={}
    for o in V.results: c[o.status]=c.get(o.status,0)+1
    print(name, c, f'{len(res)} paths {time.time()-t0:.1f}s')
    seen=set()
    for o in V.results:
        if o.status!='proved' and (o.name,o.info) not in seen:
            seen.add((o.name,o.info))
            print('   ',o.name,o.status,o.backend,f'{o.t:.1f}',o.info[:300])
            if '-m' in sys.argv: print(o.model)
    t0=time.time(); k={}
    bad=0
    for s in range(150):
        r=concrete.run_concrete(fn, W:=concrete.ConcV(s))
        k[r[0]]=k.get(r[0],0)+1
        if r[0]=='fail':
            bad+=1
            if bad<3: print('   CONC', s, r, {a:b for a,b in W.log_.items()})
        if time.time()-t0>15: break
    print('   conc',k,f'{time.time()-t0:.1f}s')
