import sys,time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from vfa.props import *
from vfa.ctx import Ctx
ctx=Ctx()
for pid in sys.argv[1:]:
    t=time.time(); obs=[]
    RULES[pid][0](ctx,obs.append)
    bad=[o for o in obs if not o.ok]
    print(pid,len(obs),'obligations',len(bad),'bad','%.1fs'%(time.time()-t))
    for o in bad[:12]: print('   ',o.name,'|',o.where,'|',(o.detail or 'UNDECIDED '+str(o.undecided))[:600])
