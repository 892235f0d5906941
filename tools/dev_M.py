import re,sys,warnings,time,multiprocessing as mp
sys.path.insert(0,'/verif')
warnings.simplefilter('ignore')
import matplotlib; matplotlib.use('Agg')
from mc import allspecs, machines
from mc.explore import Res
def job(a):
    i,p=a; prop,name,parts,f=machines.MACHINES[i]; r=Res(name); t=time.time(); f(r,p,parts)
    return name,p,r.states,r.transitions,r.skipped,time.time()-t,r.viols[:2],r.known
sel=sys.argv[1] if len(sys.argv)>1 else ''
jobs=[(i,p) for i,m in enumerate(machines.MACHINES) for p in range(m[2]) if re.search(sel,m[0]+m[1])]
with mp.Pool(8) as p:
    for x in p.imap_unordered(job,jobs,chunksize=1): print(*x)
