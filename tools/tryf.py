import sys, time
sys.path.insert(0,'/verif')
from vfa.engine import *
from vfa.facts import *
from vfa.models import M
W=int(sys.argv[2]) if len(sys.argv)>2 else 200
def tr(x):
    s=repr(x); return s if len(s)<W else s[:W]+'…'
pr=Program('/verif/.build/out/walk/clients.json',M)
t=time.time()
a=Analysis(pr,M,pr.roots[sys.argv[1]]).run()
t2=time.time()
f=Facts(a)
for c in a.cplist: print('CP',c.id,a.g.nodes[c.node],tr(c.pred),[(tr(v[0])) for k,v in c.mus.items()]); print('   SOL',{k.args[2]:tr(r) for k,r in f.sol.get(c.id,{}).items()})
for e in f.edges: print('EDGE',e.src,'->',e.dst,tr(e.pred),{a.slot_name(k):tr(v) for k,v in e.upd.items()})
for e in f.events: print('EV',e.kind,e.name,'cp',e.cp,tr(e.args),'IF',tr(e.pred), e.sp.split('/')[-1])
for x in f.exits: print('EXIT',x[0],tr(x[1]),tr(x[2]))
print('%.2fs %.2fs'%(t2-t,time.time()-t2), a.unknown)
