import re,sys,time,warnings
sys.path.insert(0,'/verif')
warnings.simplefilter('ignore')
from mc import core, calls
import mc.allspecs
for fn,s in core.Spec.registry.items():
    if len(sys.argv)>1 and not re.search(sys.argv[1],fn): continue
    t=time.time(); r=calls.explore_K(s)
    print(fn,r.states,r.skipped,'%.1fs'%(time.time()-t))
    for v in r.viols[:3]: print('   V',v)
