"""Rules about searching ways and the nodes that they reference.

The search is read as: ask the filter about every way, put the references of every accepted way into a set, then report
the nodes whose id is in that set. Each part is a coverage of the file's elements; the last one modulo conditions under
which a block is skipped, which are refuted for a block that has a node with an arbitrary id V of the set.
"""
from .idxprops import *
from .props import column, dense_msg, with_root
from .rules import Sums, dense_msg, elements_in
from .setmodels import has as member, holds as answer

V = atom(term("vstar", lo=-(1 << 63), hi=(1 << 63) - 1))
REFS = term("refs")


# ---------------------------------------------------------------- linear arithmetic
def linear(p):
    """Is a predicate that speaks about V false, by linear arithmetic?"""
    if p is FALSE:
        return True
    own = lambda v: {t for m, _ in v.terms for t in m}
    vs = support(p)
    comp = {t for m, _ in V.terms for t in m}
    grown = True
    while grown:
        grown = False
        for v in vs:
            o = own(v)
            if o & comp and not o <= comp:
                comp |= o
                grown = True
    p = exists(p, lambda v: not own(v) & comp)
    cs = cubes(p, 200)
    return len(cs) < 200 and all(contradictory(c) for c in cs)


def contradictory(cube):
    """Fourier-Motzkin elimination of a conjunction of interval tests"""
    cs = []
    for v, lo, hi in cube:
        co = dict(v.terms)
        if lo != -INF:
            cs.append((co, v.const - lo))
        if hi != INF:
            cs.append(({m: -c for m, c in co.items()}, hi - v.const))
    while True:
        # a constraint is (coefficients, constant): sum + constant >= 0
        for co, k in cs:
            if not co and k < 0:
                return True
        ms = {m for co, _ in cs for m in co}
        if not ms:
            return False
        m = min(ms, key=lambda m: len([1 for co, _ in cs if co.get(m, 0) > 0]) * len([1 for co, _ in cs if co.get(m, 0) < 0]))
        up, dn, rest = [], [], []
        for c in cs:
            x = c[0].get(m, 0)
            (up if x > 0 else dn if x < 0 else rest).append(c)
        for a, ka in up:
            for b, kb in dn:
                fa, fb = -b[m], a[m]
                co = {}
                for s, f in ((a, fa), (b, fb)):
                    for t, c in s.items():
                        co[t] = co.get(t, 0) + f * c
                rest.append(({t: c for t, c in co.items() if c}, fa * ka + fb * kb))
        cs = rest
        if len(cs) > 400:
            return False


class Hit(Witness):
    """As above, for an element with the id V"""

    def flag(self, kind):
        R, F = self.R, self.R.f
        self.flagged, self.at = [], {}
        slots = {t for q in self.Q.values() for t in terms_in(q) if t.op == "mu"}
        for e in self.inner:
            goal = self.goal_on(e)
            xs = {}
            for t, v in F.upd_map(e).items():
                if t in slots and v is not None and is_scalar(v):
                    for l, _ in leaves(v, e.pred):
                        if isinstance(l, Poly) and not l.is_const() and single(l) not in slots:
                            xs[l.id] = l
            for b, (P, own) in self.file.blocks.items():
                if P is not self.P:
                    continue
                for x in xs.values():
                    ev = Put(self, e, TRUE, x)
                    ev.pred = p_and(ev.pred, own)
                    for g, i in idents(R, b, ev, kind, lambda o: None, ""):
                        if kind == "dense":
                            pres, D = dense_msg(R.s, b, i[0])
                            base, ety = R.s.rep(D, 1)
                            if not Sums(R).check(e.src, x, base, i[1], ety, p_and(g, ev.pred), dom=own):
                                continue
                        else:
                            g = p_and(g, present(R.s, R.s.relem(R.s.relem(b, 2, i[0]), LISTS[kind], i[1]), 1))
                        now = Subst(R.an, {single(V): x})(goal)
                        if linear(p_and(p_and(ev.pred, g), p_not(now))):
                            self.at.setdefault(id(e), []).append(i)

    def refuted(self, p):
        """Case by case for what may hold the block"""
        if p is FALSE:
            return True
        for b, (P, own) in self.file.blocks.items():
            if P is self.P:
                if not linear(p_and(p, own)):
                    return False
                p = p_and(p, p_not(own))
        return linear(p)

    def passes(self, e, y):
        return any(all(p_and(e.pred, p_not(eq(a, b))) is FALSE for a, b in zip(y, i)) for i in self.at.get(id(e), []))


class Put:
    """Something that happens on an edge, as an event"""

    def __init__(self, W, e, g, *args):
        nd = W.R.an.g.nodes[W.R.f.cps[e.src].node]
        self.cp, self.pred, self.args, self.kind, self.name = e.src, p_and(e.pred, g), args, "put", "reference"
        self.sp, self.frame, self.rpo = nd.sp, nd.frame, 0
        self.edge = e


# ---------------------------------------------------------------- what holds for all entries
class Settled:
    """Conditions that the first entries of the index meet: at a cut point, those before a counter"""

    def __init__(self, O, n, S):
        I, R, file = O.I[n], O.R[n], O.files[n]
        self.I, self.R, self.file, self.S = I, R, file, S
        an, F = R.an, R.f
        self.A = {}
        for c in F.cps:
            a = I.both(I.F.s(I.stored(F.cps[c].store)))
            self.A[c] = a if is_scalar(a) and all(isinstance(l, T) for l, _ in leaves(a)) else None
        self.zs = {}
        for e in F.edges:
            for v in support(e.pred):
                t = single(v)
                c = chain(t, I.ety) if t is not None and t.op == "disc" else None
                if c is not None and c[0].op == "elem" and len(c[1]) == 2:
                    z = S.generic(test(v, 1, INF), c[0])
                    self.zs[z.id] = z
        self.claims = {z: self.solve(q) for z, q in self.zs.items()}
        self.data = [q for q in self.zs.values() if self.only_data(O, q)]

    def only_data(self, O, q):
        """Is it met by entries of data records only?"""
        S = self.S
        for n, I in O.I.items():
            t = agg(I.an.ty[I.ety]["path"], I.fields[1])
            if p_and(defined(S.of(q, t)), I.fields[2]) is not FALSE:
                return False
        for n, I in O.I.items():
            for e, A, i, v, g in I.updates(O.R[n].f):
                p = p_and(e.pred, g)
                p = p_and(p, p_and(I.made(i), p_not(O.files[n].rec(I.recpos(i)).type.data)))
                p = p_and(p, p_not(defined(S.of(q, I.an.elem_of(A, i, I.ety)))))
                if p_and(p, defined(S.of(q, v))) is not FALSE:
                    return False
        return True

    def options(self):
        F, an = self.R.f, self.R.an
        out = {}
        for c in F.cps:
            al = F.alive(F.cps[c])
            ts = []
            for d in F.cps.values():
                if d.id in al:
                    for _, (m, _) in d.mus.items():
                        if m is not None and m in F.live and m not in F.sol.get(d.id, {}) and F.is_int_slot(m) and bound(an, m) >= 0:
                            ts.append(atom(m))
            out[c] = [ZERO, self.I.N] + ts + [padd(t, ONE) for t in ts]
        out[0] = [ZERO]
        return out

    def solve(self, z):
        F, an, I, S = self.R.f, self.R.an, self.I, self.S
        opts = self.options()
        memo = {}

        def ok(e, i, x):
            """claim i at the source gives claim x at the destination"""
            k = id(e), i.id, x.id
            if k not in memo:
                memo[k] = self.step(e, i, x, z)
            return memo[k]
        changed = True
        while changed:
            changed = False
            for e in F.edges:
                keep = [x for x in opts[e.dst] if x is ZERO or any(ok(e, i, x) for i in opts[e.src])]
                if len(keep) != len(opts[e.dst]):
                    opts[e.dst], changed = keep, True
        return opts

    def step(self, e, i, x, z):
        F, an, I, S = self.R.f, self.R.an, self.I, self.S
        if self.A[e.src] is None or self.A[e.dst] is None:
            return False
        A = F.on_edge(e, self.A[e.dst])
        n = con_val(F.on_edge(e, x), e.pred)
        for l, g in leaves(A, e.pred):
            base = l
            before = {x for x, _ in leaves(constrain(self.A[e.src], g), g)}
            while isinstance(base, T) and base.op == "upd" and base not in before:
                if p_and(g, p_not(defined(S.of(z, base.args[2])))) is not FALSE:
                    return False
                base = base.args[0]
            for m, g2 in leaves(constrain(n, g), g):
                if m is ZERO:
                    continue
                if before != {base} or m is UNDEF:
                    return False
                if p_and(g2, p_not(an.ile(m, i))) is FALSE:
                    continue
                if p_and(g2, p_not(eq(m, padd(i, ONE)))) is not FALSE:
                    return False
                g3 = p_and(g2, p_and(I.made(i), self.file.rec(I.recpos(i)).type.data))
                if p_and(g3, p_not(defined(S.of(z, an.elem_of(l, i, I.ety))))) is not FALSE:
                    return False
        return True

    def known(self, c, p):
        """What is known about the entries that p speaks about"""
        out = TRUE
        for E in {x[0].id: x[0] for t in terms_in(p) for x in [chain(t, self.I.ety)] if x is not None and x[0].op == "elem"}.values():
            P = self.I.recpos(E.args[1])
            self.I.at.setdefault(P.id, E.args[1])
            for q in self.data:
                out = p_and(out, p_or(self.file.rec(P).type.data, p_or(p_not(self.I.made(E.args[1])), p_not(self.S.on(q, E)))))
            if self.A[c] is None:
                continue
            at = [g for l, g in leaves(self.A[c]) if l is E.args[0]]
            if not at:
                continue
            for z, claims in self.claims.items():
                if any(i is self.I.N or i is not ZERO and p_and(p, p_not(self.R.an.ile(self.I.N, i))) is FALSE for i in claims[c]):
                    out = p_and(out, p_or(p_not(self.file.rec(P).type.data), p_or(self.S.on(self.zs[z], E), p_not(at[0]))))
        return out

    def apply(self):
        """The root with what is known"""
        F = copy.copy(self.R.f)
        F.edges, F.ins, F.outs, F.events = [], {}, {}, []
        for e in self.R.f.edges:
            n = copy.copy(e)
            n.pred = p_and(e.pred, self.known(e.src, e.pred))
            if n.pred is FALSE:
                continue
            F.edges.append(n)
            F.ins.setdefault(n.dst, []).append(n)
            F.outs.setdefault(n.src, []).append(n)
        for e in self.R.f.events:
            n = copy.copy(e)
            n.pred = p_and(e.pred, self.known(e.cp, e.pred))
            if n.pred is not FALSE:
                F.events.append(n)
        R = copy.copy(self.R)
        R.f = F
        return R


class DepSkips(Skips):
    """Conditions that may also ask whether the set has an element in the entry's range"""

    def mine(self, t, E):
        if t.op == "hasin":
            ts = [x for a in t.args[1:] for m, _ in a.terms for x in m]
            return bool(ts) and all(Skips.mine(self, x, E) for x in ts)
        return Skips.mine(self, t, E)

    def about_id(self, q):
        """The condition for an entry whose block has an element with an id V that is in the set"""
        for t in [t for t in terms_in(q) if t.op == "hasin"]:
            yes = test(atom(t), 1, 1)
            inr = p_and(self.R.an.ile(t.args[1], V), self.R.an.ile(V, t.args[2]))
            q1, q0 = constrain(q, yes), constrain(q, p_not(yes))
            q = p_or(p_and(inr, q1), p_and(p_not(inr), p_or(q0, q1)))
        return q


# ---------------------------------------------------------------- the set of references
class References:
    """The set that decides which nodes are reported, and what is put into it"""

    def __init__(self, O, R, report):
        self.R, self.report = R, report
        F = R.f
        self.final, self.uses = {}, {}
        for e in F.edges + [e for e in F.events if e.kind == "obs"]:
            c = e.src if hasattr(e, "src") else e.cp
            for t in terms_in(e.pred):
                if t.op in ("hasin", "member"):
                    S = t.args[0].args[0] if isinstance(t.args[0], T) and t.args[0].op == "sorted" else t.args[0]
                    self.final[S] = c
                    self.uses[c] = p_or(self.uses.get(c, FALSE), e.pred)
        # slots that the set goes through
        self.slots, self.puts, self.new = {}, [], []
        todo = [S for S in self.final if S.op == "mu"]
        self.odd = [S for S in self.final if S.op != "mu"]
        by = {m: c.id for c in F.cps.values() for _, (m, _) in c.mus.items() if m is not None}
        while todo:
            m = todo.pop()
            if m in self.slots:
                continue
            self.slots[m] = by[m]
            for e in F.ins.get(by[m], []):
                v = F.slot_upd(e, m)
                if v is None:
                    continue
                for l, g in leaves(con_val(v, e.pred), e.pred):
                    if l is UNDEF:
                        continue
                    n = 0
                    while isinstance(l, T) and l.op == "setput":
                        p = Put(self, e, g, l.args[1])
                        p.rpo = -n
                        self.puts.append(p)
                        l, n = l.args[0], n + 1
                    if isinstance(l, T) and l.op == "mu" and l in by:
                        todo.append(l)
                    elif isinstance(l, T) and l.op == "setnew":
                        self.new.append(Put(self, e, g, l))
                    else:
                        self.odd.append(l)


class Answers:
    """Rewrites lookups of ids into questions about elements: is the id of the element in the set?"""

    def __init__(self, O, I, R, file, S, refs, report):
        self.O, self.I, self.R, self.file, self.S, self.refs, self.report = O, I, R, file, S, refs, report
        self.memo, self.said = {}, set()

    def say(self, nm, at, bad, v, detail):
        k = nm, at.cp, at.pred
        if k in self.said:
            return
        self.said.add(k)
        nm = f"C19: {nm}"
        if bad is FALSE:
            self.report(Ob(nm, where(at)))
        else:
            missing(self.R, self.report, nm, at, v, bad, detail)

    def replace(self, cp, at, p):
        m = {t: REFS for t in self.refs.final}
        ts = [t for t in terms_in(p) if t.op == "member"]
        out = {}
        for t in ts:
            x = self.one(cp, at, p, t)
            if x is not None:
                out[t] = x
        s1 = Subst(self.R.an, out)(p) if out else p
        return Subst(self.R.an, m)(s1) if m else s1

    def one(self, cp, at, p, t):
        """The atom for a lookup"""
        X, v = t.args
        R, I = self.R, self.I
        S, rng = X, None
        if isinstance(X, T) and X.op == "sorted":
            S, rng = X.args[0], X.args[1:3]
        put = Site(R, R.f.cps[cp], p)
        put.args = (v,)
        put.name, put.kind = "lookup", "obs"
        if v.is_const():
            return term("member", REFS, v, lo=0, hi=1)
        for kind in ("Node", "dense"):
            for b, (P, own) in self.file.blocks.items():
                if not any(x is b for x in terms_in(v)):
                    continue
                put.pred = p_and(p, own)
                ids = idents(R, b, put, kind, lambda o: None, "")
                if len(ids) != 1:
                    continue
                g, (gi, pj) = ids[0]
                if rng is not None:
                    self.ranged(at, P, kind, rng, v, asks(put.pred, t))
                if kind == "dense":
                    pres, D = dense_msg(R.s, b, gi)
                    base, ety = R.s.rep(D, 1)
                    su = Sums(R)
                    ok = su.check(cp, v, base, pj, ety, p_and(g, put.pred), dom=own)
                    self.say("the id that is looked up is the node's", at, FALSE if ok else put.pred, v, f"it is {short(v)}: {su.why}")
                    return dense_hit(R, b, gi, pj)
                return term("member", REFS, v, lo=0, hi=1)
        return None

    def ranged(self, at, P, kind, rng, v, p):
        """The lookup is restricted to the range of the entry: its block's ids are in it"""
        I = self.I
        es = {c[0].id: c[0] for a in rng for x in terms_in(a) for c in [chain(x, I.ety)] if c is not None}
        nm = f"ids are looked up within the range of their block ({kind})"
        if len(es) != 1:
            self.say(nm, at, TRUE, v, f"they are looked up between {short(rng[0], 80)} and {short(rng[1], 80)}")
            return
        E = next(iter(es.values()))
        p = exists(p, lambda x: not all(Skips.mine(self.S, y, E) for m, _ in x.terms for y in m))
        q = self.S.generic(p_and(p, p_not(p_and(self.R.an.ile(rng[0], V), self.R.an.ile(V, rng[1])))), E)
        if I.at.get(P.id) is not E.args[1]:
            self.say(nm, at, TRUE, v, "the range is that of another block")
            return
        w = self.O.holds(self.S, q, kind, Hit)
        if w is not None:
            # it is the path to the range that has to stay
            path = sorted({v.id: (len(chain(single(v), I.ety)[1]), v.id, v) for v in support(p) if single(v) is not None and single(v).op == "disc" and Skips.mine(self.S, single(v), E)}.values())
            on = [exists(p, lambda x, v=v: x is not v) for _, _, v in path]
            for k in range(1, len(on)):
                upper, lower = TRUE, TRUE
                for g in on[:k]:
                    upper = p_and(upper, g)
                for g in on[k:]:
                    lower = p_and(lower, g)
                if self.O.holds(self.S, p_or(q, self.S.generic(p_and(upper, p_not(lower)), E)), kind, Hit) is None:
                    w = None
        self.say(nm, at, FALSE if w is None else TRUE, v, f"an id may be outside of it: {w}")

    def apply(self):
        F = copy.copy(self.R.f)
        F.edges, F.ins, F.outs, F.events = [], {}, {}, []
        for e in self.R.f.edges:
            n = copy.copy(e)
            n.pred = self.replace(e.src, Put(self, e, TRUE), e.pred)
            F.edges.append(n)
            F.ins.setdefault(n.dst, []).append(n)
            F.outs.setdefault(n.src, []).append(n)
        for e in self.R.f.events:
            n = copy.copy(e)
            if e.kind == "obs":
                n.pred = self.replace(e.cp, e, e.pred)
            F.events.append(n)
        R = copy.copy(self.R)
        R.f = F
        return R


def asks(p, t):
    """When does a predicate depend on a bit?"""
    yes = test(atom(t), 1, 1)
    a, b = constrain(p, yes), constrain(p, p_not(yes))
    return p_or(p_and(a, p_not(b)), p_and(b, p_not(a)))


def dense_hit(R, b, gi, pj):
    pres, D = dense_msg(R.s, b, gi)
    return term("member", REFS, atom(term("denseid", D, pj, lo=-(1 << 63), hi=(1 << 63) - 1)), lo=0, hi=1)


class DepCoverage(IndexCoverage):
    """Something that is done for some elements: the last number counts what is done for the element"""

    def __init__(self, I, R, file, kind, events, what, skip, last):
        super().__init__(I, R, file, kind, events, what, skip)
        self.ends = self.ends + [last]
        self.plain = self.plain + [last]
        self.d += 1
        self.start = (ZERO,) * self.d


def ending(R, events):
    """The root, in which these events are its ends"""
    F = copy.copy(R.f)
    F.exits = F.exits + [(e.cp, e.pred, None, None) for e in events]
    R = copy.copy(R)
    R.f = F
    return R


@rule("C19", "coverage of the data records' ways by the questions to the filter, of the accepted ways by the callback and of their references by the insertions into one set, all of them complete before the first lookup; coverage of the nodes whose id is in that set by the callback; conditions under which a block is skipped are refuted, by induction over the loops that compute its range of ids and linear arithmetic, for a block that has a node with an arbitrary id of the set")
def c19(ctx, report):
    O = Operations(ctx, report, "C19")
    for I in O.I.values():
        lasting(I)
    if O.I:
        fresh(ctx, report, next(iter(O.I.values())).field, "C19")
    if not O.ok:
        return
    n = "x_ways"
    I, file = O.I[n], O.files[n]
    S0 = DepSkips(I, O.R[n], file)
    O.R[n] = Settled(O, n, S0).apply()
    S = DepSkips(I, O.R[n], file)
    R = succeeded(O.R[n])
    C = Checker(R, report, "C19")
    nodes = R.obs("node", "dense")
    refs = References(O, R, report)
    for e in R.obs("rel"):
        C.implies("only ways and nodes are reported", e, e.pred, FALSE, "another element is reported")
    # ways
    def skipping(kind):
        good, why = [], []
        for q in S.conds.values():
            q2 = S.about_id(q) if kind != "Way" else q
            if kind == "Way" and any(t.op == "hasin" for t in terms_in(q)):
                continue
            w = O.holds(S, q2, kind, Hit if kind != "Way" else Witness)
            if w is None:
                good.append(q)
            else:
                why.append(w)

        def skip(k):
            p = FALSE
            for E in S.entries:
                if E.args[1] is k:
                    for q in good:
                        p = p_or(p, S.on(q, E))
            return p
        return skip, why
    accepted = lambda t: file.over(I.recpos(t[0]), lambda b: answer("accepted", R.s.relem(R.s.relem(b, 2, t[1]), LISTS["Way"], t[2])))
    skip, why = skipping("Way")
    RW = ending(R, nodes)

    def ways(name, what):
        out = []
        for e in R.obs(name):
            out.append((e, [(g, (I.at[P.id], a, b)) for g, (P, a, b) in file.idents(e, "Way", report, f"C19 {what}: the id is the way's")]))
        return out
    IndexCoverage(I, RW, file, "Way", ways("filter", "filter"), "C19 filter", skip).run(report)
    evs = [(e, [(g, t + (ZERO,)) for g, t in ids]) for e, ids in ways("way", "way")]
    DepCoverage(I, RW, file, "Way", evs, "C19 way", skip, lambda t: p_or(p_not(accepted(t)), test(t[3], 1, INF))).run(report)
    # references
    C.implies("the nodes are looked up in one set", nodes[0] if nodes else R.f.events[0], FALSE if refs.final or not nodes else TRUE, FALSE, "no set is asked")
    for x in refs.odd:
        missing(R, report, "C19: the set holds references of accepted ways", R.f.events[0], x, TRUE, f"the set becomes {short(x)}")
    evs = []
    for p in refs.puts:
        ids = []
        v, rest = p.args[0], p.pred
        for b, (P, own) in file.blocks.items():
            for W, (gi, pj) in elements_in(R, b, v, "Way"):
                g = p_and(p.pred, own)
                base, ety, cands = column(R, W, 8, v)
                su = Sums(R)
                for r in cands[:1]:
                    if g is not FALSE and su.check(p.cp, v, base, r, ety, g, dom=own):
                        ids.append((own, (I.at[P.id], gi, pj, r)))
                        rest = p_and(rest, p_not(own))
        if rest is not FALSE:
            missing(R, report, "C19: what is put into the set is a reference of a way", p, v, rest, f"{short(v)} is put into it")
        evs.append((p, ids))

    def refs_end(t):
        n = file.over(I.recpos(t[0]), lambda b: R.s.rlen(R.s.relem(R.s.relem(b, 2, t[1]), LISTS["Way"], t[2]), 8))
        return p_or(p_not(accepted(t)), R.an.ile(n, t[3]))
    uses = [Use(R, c, p) for c, p in refs.uses.items()]
    cov = DepCoverage(I, ending(R, uses), file, "Way", evs, "C19 references", skip, refs_end)
    cov.run(report)
    for p in refs.new:
        ok = any(all(x is ZERO for x in y) for y in cov.S.get(p.cp, []))
        C.implies("the set of references is kept while references are collected", p, FALSE if ok else p.pred, FALSE, "it starts empty again")
    # nodes
    A = Answers(O, I, R, file, S, refs, report)
    RN = A.apply()
    for nm, kind in (("node", "Node"), ("dense", "dense")):
        skip, why = skipping(kind)
        renamed = lambda k, skip=skip: Subst(R.an, {t: REFS for t in refs.final})(skip(k)) if refs.final else skip(k)
        evs = []
        for e in RN.obs(nm):
            evs.append((e, [(g, (I.at[P.id], a, b, ZERO)) for g, (P, a, b) in file.idents(e, kind, report, f"C19 {nm}: the id is the node's")]))

        def asked(t, kind=kind):
            def one(b):
                if kind == "dense":
                    return test(atom(dense_hit(R, b, t[1], t[2])), 1, 1)
                return member(REFS, R.s.val(R.s.relem(R.s.relem(b, 2, t[1]), LISTS[kind], t[2]), 1))
            return file.over(I.recpos(t[0]), one)
        DepCoverage(I, RN, file, kind, evs, f"C19 {nm}", renamed, lambda t, asked=asked: p_or(p_not(asked(t)), test(t[3], 1, INF))).run(report)
    failures(R, I, file, C)


class Use:
    """A place at which the set is asked"""

    def __init__(self, R, cp, pred):
        nd = R.an.g.nodes[R.f.cps[cp].node]
        self.cp, self.pred, self.sp, self.frame, self.name, self.rpo = cp, pred, nd.sp, nd.frame, "lookup", 0
