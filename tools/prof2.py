import sys,time; sys.path.insert(0,'/verif')
from vc import prover, poly
for m,f in ((poly,'normalise'),(prover,'normal_form'),(prover,'congruences'),(prover,'check')):
    def wrap(m=m,f=f,o=getattr(m,f)):
        def g(*a,**k):
            t=time.time()
            r=o(*a,**k)
            dt=time.time()-t
            if dt>0.5: print(f, f'{dt:.1f}', (r[1].budget if f=='normalise' else ''), (str(a[1:]) if f=='check' else ''), flush=True)
            return r
        setattr(m,f,g)
    wrap()
import vc.contract
exec(open('/verif/tools/t2.py').read())
