import sys, time
sys.path.insert(0,'/verif')
from vfa.engine import *
from vfa.models import M
W=int(sys.argv[2]) if len(sys.argv)>2 else 300
def tr(x):
    s=repr(x); return s if len(s)<W else s[:W]+'…'
pr=Program('/verif/.build/out/walk/clients.json',M)
def go(root):
    a=Analysis(pr,M,pr.roots[root])
    print('nodes',len(a.g.nodes),'headers',len(a.g.headers))
    a.run()
    for c in a.cplist: print('CP',c.id,a.g.nodes[c.node],tr(c.pred),[(tr(v[0])) for k,v in c.mus.items()])
    for e in a.edges: print('EDGE',e.src,'->',e.dst,tr(e.pred),{a.slot_name(k):tr(v) for k,v in e.upd.items()})
    for e in a.events: print('EV',e.kind,e.name,'cp',e.cp,tr(e.args),'IF',tr(e.pred), e.sp.split('/')[-1])
    for x in a.exits: print('EXIT',x[0],tr(x[1]),tr(x[2]))
    print('unknown',a.unknown)
    return a
t=time.time(); a=go(sys.argv[1]); print('%.2fs'%(time.time()-t), a.fuel)
