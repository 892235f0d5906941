import re,sys,warnings,time,multiprocessing as mp
sys.path.insert(0,'/verif')
warnings.simplefilter('ignore')
from mc.allspecs import Spec
from mc import history, threads, forms
def job(a):
    k,fn=a; t=time.time()
    r={'H':history.explore_H,'A':history.explore_A,'T':threads.explore_T,'O':forms.explore_O,'S':forms.explore_S}[k](Spec.registry[fn])
    return k,fn,r.states,r.transitions,time.time()-t,r.viols
sel=sys.argv[2] if len(sys.argv)>2 else ''
jobs=[(k,fn) for k in sys.argv[1] for fn in Spec.registry if re.search(sel,fn)]
tot=0
with mp.Pool(8) as p:
    for x in p.imap_unordered(job,jobs,chunksize=1):
        tot+=x[4]
        if x[5] or x[4]>6 or (x[2]==0 and sys.argv[1] not in 'OS'): print(x[:5],[ (v['msg'][:300]) for v in x[5][:2]])
print('total',tot)
