"""names of the calls of a root that nothing models"""
import sys
sys.path.insert(0, '/verif')
from vfa.ctx import Ctx
from vfa.engine import *
from vfa.models import M
pr = Ctx().program(sys.argv[1])
for r in sys.argv[2:]:
    g = Graph(pr, pr.roots[r]) if False else None
    from vfa.program import Graph
    g = Graph(pr, pr.roots[r])
    s = {}
    for n in g.nodes:
        if n.term['k'] == 'call':
            c = n.term['f']
            if M.lookup(c) is None:
                s.setdefault(c.get('rpath') or c.get('path'), set()).add((c.get('path'), n.frame.chain()[0].split('::')[-1]))
    print(r, len(g.nodes))
    for k, v in sorted(s.items()):
        print('   ', k, sorted(v)[:3])
