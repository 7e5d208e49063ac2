import sys,time,traceback
sys.path.insert(0,'/verif')
from vfa.engine import *
from vfa.models import M
pr=Program('/verif/.build/out/walk/clients.json',M)
for r in pr.roots:
    if len(sys.argv)>1 and not any(x in r for x in sys.argv[1:]): continue
    t=time.time()
    try:
        a=Analysis(pr,M,pr.roots[r]).run()
        print(r,'ok cps',len(a.cplist),'events',len(a.events),'edges',len(a.edges),'unknown',a.unknown,'%.2fs'%(time.time()-t))
    except Imprecise as e:
        print(r,'IMPRECISE',str(e)[:300],'%.2fs'%(time.time()-t))
    except Exception as e:
        print(r,'EXC',repr(e)[:300]); traceback.print_exc(limit=-3)
