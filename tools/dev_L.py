import re,sys,time,warnings
sys.path.insert(0,'/verif')
warnings.simplefilter('ignore')
import importlib
from mc import core
import mc.allspecs
for m in sys.argv[1].split(','): importlib.import_module('mc.specs.'+m)
from mc import explore
sel=sys.argv[2] if len(sys.argv)>2 else ''
for fn,s in core.Spec.registry.items():
    if sel and not re.search(sel,fn): continue
    t=time.time(); r=explore.explore_L(s)
    print(fn,'states',r.states,'tr',r.transitions,'skip',r.skipped,'t',{k:v for k,v in r.info.items()},'%.1fs'%(time.time()-t),r.known)
    for v in r.viols[:3]: print('   V',v)
