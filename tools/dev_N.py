import re,sys,time,warnings
sys.path.insert(0,'/verif')
warnings.simplefilter('ignore')
import mc.allspecs
from mc import core, forms
sel=sys.argv[1] if len(sys.argv)>1 else ''
for fn,s in core.Spec.registry.items():
    if sel and not re.search(sel,fn): continue
    t=time.time(); r=forms.explore_N(s)
    print(fn,r.states,r.transitions,'%.1fs'%(time.time()-t),r.known)
    for v in r.viols[:3]: print('   V',str(v)[:400])
