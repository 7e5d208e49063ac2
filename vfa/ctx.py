"""What the rules work on: the analysed client functions and the sources of the library."""
from . import build
from .models import M
from . import nummodels, iomodels, fmtmodels, setmodels, stdpanics
from .program import Program
from .rules import Root


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.progs = {}
        self.roots = {}
        self.notes = []

    def program(self, group):
        if group not in self.progs:
            self.progs[group] = Program(build.dump(group), M)
        return self.progs[group]

    def root(self, name, group="walk"):
        k = (group, name)
        if k not in self.roots:
            p = self.program(group)
            self.roots[k] = Root(p, M, name) if name in p.roots else None
        return self.roots[k]

    def lines(self, g, n):
        r = self.roots[(g, n)]
        if r is None or r.error:
            return [f"{n}: {'missing' if r is None else r.error}"]
        an = r.an
        fns = {nd.frame.chain()[0] for nd in an.g.nodes if nd is not None and nd.frame is not None}
        return [f"{n}: {len(fns)} functions, {len(an.g.nodes)} nodes, {len(r.f.cps)} cut points, "
                f"{len(r.f.edges)} edges, {len(r.f.events)} events"]

    def summary(self):
        return [l for g, n in self.roots for l in self.lines(g, n)] + self.notes
