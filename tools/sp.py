import sys,time; sys.path.insert(0,'/verif')
import json,importlib
from vstat.model import Program
from vstat.engine import *
prog=Program('/repo')
kf=json.load(open('/verif/vstat/known_functions.json'))
LIM=3500
def sp(cls,name,n=5,self_cls=None,lim=None,**cfg):
    f=prog.method(cls,name) if cls else prog.func(name)
    t=time.time()
    cfg.setdefault('opaque',set()); cfg['opaque']=set(cfg['opaque'])|{'_log_caller','log'}
    w=Walker(prog,Cfg(**cfg),set(kf))
    ps=w.run(f,prog.cls(self_cls or cls) if cls else None)
    print(f.qual,len(ps),'paths',round(time.time()-t,2))
    tot=''
    for p in ps[:n]:
        tot+="\n".join('  %d: %r'%(getattr(e.node,'lineno',0),e) for e in p.events if not (e.kind in('enter','exit') or e.name in ('_log_caller','log')))+f"\n  => {p.outcome} {show(p.value)}\n\n"
    print(tot[:lim or LIM])
    return ps
