import sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from vfa.props import *
from vfa.ctx import Ctx
ctx=Ctx(); obs=[]
RULES[sys.argv[1]][0](ctx,obs.append)
from collections import Counter
for (n,w,ok),k in sorted(Counter((o.name,o.where,o.ok) for o in obs).items()): print(k,'ok ' if ok else 'BAD',n,'|',w)
