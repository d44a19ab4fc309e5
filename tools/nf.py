import sys; sys.path.insert(0,'/verif')
from vc import prover, poly
import time
o=poly.normalise
def nf(g,h,*a):
    t=time.time()
    r=o(g,h,*a); print('PF', a[:1], f'{time.time()-t:.1f}s', str(r[0])[:3000], r[1].budget); 
    for k,v in r[1].tab.items(): print('  ',k[0],v)
    if '-s' in sys.argv: print(r[1].side)
    return r
poly.normalise=nf
exec(open('/verif/tools/t2.py').read())
