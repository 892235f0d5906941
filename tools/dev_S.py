import re,sys,warnings,collections
sys.path.insert(0,'/verif')
warnings.simplefilter('ignore')
import importlib
from mc import core
for m in sys.argv[1].split(','): importlib.import_module('mc.specs.'+m)
from mc import explore, forms
import time
class R2(explore.Res):
    def viol(self,kind,msg,**d): self.viols.append(dict(fn=self.fn,kind=kind,msg=msg,**d))
forms.Res=R2
sel=sys.argv[2] if len(sys.argv)>2 else ''
full='-v' in sys.argv
for fn,s in core.Spec.registry.items():
    if sel and not sel.startswith('-') and not re.search(sel,fn): continue
    t=time.time(); r=forms.explore_S(s)
    print(fn,'states',r.states,'tr',r.transitions,'%.1fs'%(time.time()-t),r.known, len(r.viols))
    by=collections.defaultdict(set); msg={}
    for v in r.viols:
        if len(v['subset'])==1 or v['form']=='bcast' or full: by[v['form']].add('+'.join(v['subset'])); msg[v['form']]=v['msg'][:160]
    single={ (f,x) for f,ss in by.items() for x in ss}
    for v in r.viols:
        if len(v['subset'])>1 and v['form']!='bcast' and not any((v['form'],x) in single for x in v['subset']):
            by[v['form']].add('MULTI'); msg[v['form']]=v['msg'][:160]
    for f,ss in by.items(): print('    ',f,sorted(ss),'|',msg[f])
