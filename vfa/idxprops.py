"""Rules about indexed readers.

The index is a private vector with one entry per record. Between public operations it is empty or full, where full
means: entry j belongs to the j-th record for which the creating loop pushed one, and its fields are those that the
loop gives them, except for the fields that later updates change. For the latter, an invariant is proved for every
update in every operation: a condition under which some operation skips a block never holds for an entry whose
block has an element of the kind that is skipped.
"""
import copy
from .readprops import *
from .engine import State


def walk(an, v, steps):
    """Follow a chain of accesses [(op, args, ty of the base)] from a value"""
    for op, a, bty, fty in steps:
        if v is UNDEF:
            return UNDEF
        if op == "disc":
            v = an.disc(v, bty)
        else:
            vi, i = a if isinstance(a, tuple) else (None, a)
            v = an.get_field(v, bty, vi, i)
    return v


def chain(t, ety):
    """(E, steps): the entry term whose field t is, None if it is none"""
    steps = []
    while isinstance(t, T) and t.op in ("fld", "disc"):
        steps.append((t.op, t.args[1] if t.op == "fld" else None, t.args[0].ty if isinstance(t.args[0], T) else None, t.ty))
        t = t.args[0]
    if steps and isinstance(t, T) and t.ty == ety and t.op in ("elem", "entry"):
        return t, steps[::-1]
    return None


class Access(Subst):
    """Replace fields of entries: f(E, field) -> value of the field, None: unchanged"""

    def __init__(self, an, ety, f, length=None):
        self.an, self.ety, self.f, self.length = an, ety, f, length
        self.m, self.by, self.syms, self.memo = {}, {0: None}, frozenset(), {}

    def go(self, v):
        if isinstance(v, T):
            c = chain(v, self.ety)
            if c is not None:
                E, steps = c
                op, a, _, _ = steps[0]
                x = self.f(E, a) if op == "fld" else None
                if x is not None:
                    return walk(self.an, x, steps[1:])
            if v.op == "len" and self.length is not None:
                x = self.length(v)
                if x is not None:
                    return x
        return Subst.go(self, v)


def source_in(an, v, ty, depth=0):
    """The source inside of a reader"""
    x = an.expand(v, ty)
    s = find_src(x)
    if s is not None or depth > 4 or not isinstance(x, Agg) or an.ty[ty]["k"] != "adt":
        return s
    for i, (n, ft) in enumerate(an.ty.fields(ty)):
        if an.ty[ft]["k"] == "adt":
            s = source_in(an, an.get_field(x, ty, None, i), ft, depth + 1)
            if s is not None:
                return s
    return None


class Index:
    """The index of an indexed reader in one operation"""

    def __init__(self, R):
        self.R, self.an, self.F = R, R.an, R.f
        an = R.an
        self.arg = an.entry_cp.store[an.lroot(an.g.root, 1)]
        self.rty = an.ty.pointee(an.body["locals"][1])
        self.field = None
        for i, (n, ft) in enumerate(an.ty.fields(self.rty)):
            if an.ty[ft]["k"] == "adt" and an.ty[ft]["path"] == "alloc::vec::Vec":
                if self.field is not None:
                    raise SpecError("more than one index")
                self.field, self.vty = i, ft
        if self.field is None:
            raise SpecError("no index")
        self.ety = an.ty.elem(self.vty) if hasattr(an.ty, "elem") and an.ty.elem(self.vty) is not None else an.ty[self.vty]["args"][0]
        self.A0 = self.stored({})
        s = source_in(an, an.read_lv(State(TRUE, {}), an.targets(self.arg, self.rty), self.rty), self.rty)
        if s is None:
            raise SpecError("no source")
        self.h = s.kids[0]
        self.len0 = an.len_of(self.A0)
        self.some = p_not(eq(self.len0, ZERO))

    def stored(self, store):
        """The index in this store"""
        an = self.an
        m = an.read_lv(State(TRUE, store), an.targets(self.arg, self.rty), self.rty)
        return an.get_field(m, self.rty, None, self.field)

    def kids(self, v):
        x = self.an.expand(v, self.ety)
        return x.kids if isinstance(x, Agg) else None

    def position(self, store):
        an = self.an
        s = source_in(an, an.read_lv(State(TRUE, store), an.targets(self.arg, self.rty), self.rty), self.rty)
        return s.kids[1] if s is not None and s.kids[0] is self.h else None


class Tracked(Index):
    """The index with what is known about every vector of entries at every cut point"""

    def __init__(self, R, report, what):
        super().__init__(R)
        self.report, self.what = report, what
        self.C = Checker(R, report, what)
        F = self.F
        self.heads = {}
        for c in F.cps:
            P = self.position(F.cps[c].store)
            P = resolve(R, c, P) if P is not None else None
            if isinstance(P, Poly) and c in P.syms:
                self.heads[c] = P
        self.recs = {}
        self.slots = {}
        for c in F.cps.values():
            for k, (m, _) in c.mus.items():
                if m is not None and m.ty == self.vty and m not in F.sol.get(c.id, {}):
                    self.slots[m] = c.id
        self.classify()

    def rec(self, P):
        r = self.recs.get(P.id)
        if r is None:
            r = self.recs[P.id] = Record(self.R, self.h, P)
            r.type = Typed(self.R, r.header)
        return r

    # ---------------------------------------------------------------- states of vectors
    def state(self, v):
        """of a term: 'full', 'building', 'empty', None: unknown"""
        if v is self.A0:
            return "stored"
        if v.op == "mu":
            return self.st.get(v)
        if v.op == "upd":
            s = self.state(v.args[0])
            return s if s in ("full", "top") else "full" if s == "stored" else None
        if v.op == "vecnew":
            return "new"
        if v.op == "push":
            s = self.state(v.args[0])
            return "building" if s == "new" else s if s in ("building", "top") else None
        return None

    def flow(self, e, v, p):
        """The states of the leaves of a value on an edge: [(state, guard, leaf)]"""
        out = []
        for l, g in leaves(v, p):
            if l is UNDEF:
                continue
            s = self.state(l) if isinstance(l, T) else None
            if s == "stored":
                for s2, q in (("full", self.some), ("empty", p_not(self.some))):
                    if p_and(g, q) is not FALSE:
                        out.append((s2, p_and(g, q), l))
                continue
            if s == "building" and e is not None and e.src in self.heads:
                q = p_and(g, self.rec(self.heads[e.src]).none)
                if q is not FALSE and l.op == "mu":
                    out.append(("done", q, l))
                    g = p_and(g, p_not(q))
            if g is not FALSE:
                out.append((s, g, l))
        return out

    def classify(self):
        """A vector is full if it is so on every edge, else building if it is new or building on every edge"""
        F = self.F
        self.st = {m: "top" for m in self.slots}
        done = False
        while not done:
            done = True
            for m, c in self.slots.items():
                if self.st[m] is None:
                    continue
                seen = set() if self.st[m] == "top" else {self.st[m]}
                for e in F.ins.get(c, []):
                    v = F.slot_upd(e, m)
                    if v is not None:
                        seen |= {s for s, _, _ in self.flow(e, con_val(v, e.pred), e.pred)}
                seen.discard("top")
                new = "top" if not seen else "full" if seen <= {"full", "done"} else "building" if seen <= {"new", "building", "empty"} and c in self.heads else None
                if new != self.st[m]:
                    self.st[m], done = new, False

    # ---------------------------------------------------------------- creation
    def creation(self):
        """The vector that is built gets one entry per record that holds elements; its fields in terms of the position"""
        F, an, C = self.F, self.an, self.C
        fields = None
        for m, c in self.slots.items():
            if self.st[m] != "building":
                continue
            P = self.heads[c]
            rec = self.rec(P)
            at = F.cps[c]
            bad = lift(lambda a, b: test(atom(term("seekerr", a, b, lo=0, hi=1)), 1, 1), self.h, rec.next)
            for e in F.ins[c]:
                v = con_val(F.slot_upd(e, m), e.pred)
                ev = Site(self.R, at, e.pred)
                pos = F.on_edge(e, P)
                for s, g, l in self.flow(e, v, e.pred):
                    if s in ("new", "empty"):
                        C.equal("the index is built from the start of the source", ev, pos, ZERO, g)
                    elif l.op == "mu":
                        src = self.slots.get(l)
                        if src is None or src not in self.heads:
                            C.implies("the index that is built is known", ev, g, FALSE, "it is not")
                            continue
                        r = self.rec(self.heads[src])
                        same = map2(lambda a, b: eq(a, b) if isinstance(a, Poly) and isinstance(b, Poly) else FALSE, pos, con_val(self.heads[src], g))
                        C.implies("every record that may hold elements gets an entry", ev, p_and(g, p_not(same)), p_and(r.header_ok, p_not(r.type.data)), "no entry is made")
                        C.equal("the reader moves to the next record", ev, pos, r.next, p_and(g, p_not(same)))
                    else:
                        src = self.slots.get(l.args[0])
                        if l.op != "push" or l.args[0].op != "mu" or src not in self.heads:
                            C.implies("one entry is made per record", ev, g, FALSE, f"the index becomes {short(l, 120)}")
                            continue
                        r = self.rec(self.heads[src])
                        C.implies("an entry is made only for an intact header", ev, g, r.header_ok, "it is made for another record")
                        C.equal("the reader moves to the next record", ev, pos, r.next, g)
                        ks = self.kids(l.args[1])
                        if ks is None:
                            C.implies("the entry is known", ev, g, FALSE, short(l))
                            continue
                        H = self.heads[src]
                        if fields is None:
                            fields = (H, ks, g)
                        elif fields[0] is H:
                            fields = (H, [an.merge(g, x, y) for x, y in zip(ks, fields[1])], p_or(g, fields[2]))
                        else:
                            C.implies("entries are made by one loop", ev, g, FALSE, "they are made by several")
        if fields is not None:
            H, ks, g = fields
            g = exists(g, lambda v: H.syms.isdisjoint(v.syms))
            fields = (H, [con_val(k, g) for k in ks], g)
        self.fields = fields
        return fields is not None

    def updates(self, F=None):
        """[(edge, A, i, value, guard)]: entries that are replaced"""
        out, F = [], F or self.F
        for m, c in self.slots.items():
            for e in F.ins.get(c, []):
                v = F.slot_upd(e, m)
                if v is None:
                    continue
                for l, g in leaves(con_val(v, e.pred), e.pred):
                    while isinstance(l, T) and l.op == "upd":
                        out.append((e, l.args[0], l.args[1], l.args[2], g))
                        l = l.args[0]
        # those that the operation leaves behind
        for c, p, _, store in F.exits:
            p = self.F.s(p)
            x = self.F.s(self.stored(store))
            if F is not self.F:
                x = self.both(x)
            for l, g in leaves(con_val(x, p), p):
                while isinstance(l, T) and l.op == "upd":
                    out.append((Exit(c, p), l.args[0], l.args[1], l.args[2], g))
                    l = l.args[0]
        return out

    def changed(self):
        """Numbers of the fields that updates change"""
        out = set()
        for e, A, i, v, g in self.updates():
            old, new = self.kids(self.an.elem_of(A, i, self.ety)), self.kids(v)
            for n, (x, y) in enumerate(zip(old, new)):
                if not same_val(self.an, x, y, g):
                    out.add(n)
        return out

    # ---------------------------------------------------------------- the view through the records
    def view(self, frozen):
        """Entries of full vectors become functions of their records: a copy of the root"""
        an, F = self.an, self.F
        H, ks, made = self.fields
        (mono, _), = H.terms if len(H.terms) == 1 else ((None, None),)
        if mono is None or len(mono) != 1 or H.const:
            raise SpecError("position of the records")
        self.ptr = mono[0]
        self.N = atom(term("entries", self.h, lo=0, hi=(1 << 62)))
        self.inst, self.at = {}, {}

        def full(A):
            if isinstance(A, T):
                s = self.state(A)
                return s in ("full", "stored")
            return False

        def field(E, a):
            if E.op != "elem" or not full(E.args[0]) or a not in frozen:
                return None
            return self.entry(acc(E.args[1]), a)

        def length(t):
            A = t.args[0]
            if A is self.A0:
                return ite(self.some, self.N, self.len0)
            if isinstance(A, T) and A.op == "mu" and A in self.slots:
                if self.st[A] == "full":
                    return self.N
                if self.st[A] == "building":
                    return ite(self.rec(self.heads[self.slots[A]]).none, self.N, atom(t))
            return None
        acc = Access(an, self.ety, field, length)
        inv = p_or(p_not(self.some), p_not(eq(self.N, ZERO)))
        V = copy.copy(F)
        V.edges, V.events = [], []
        for e in F.edges:
            n = copy.copy(e)
            n.pred = p_and(acc(e.pred), inv)
            n.upd = {k: con_val(acc(v), n.pred) if v is not None else None for k, v in e.upd.items()}
            V.edges.append(n)
        # counters that are always the number of entries
        al = {m: c.id for c in F.cps.values() for _, (m, _) in c.mus.items() if m is not None and m in F.live and F.is_int_slot(m) and m not in F.sol.get(c.id, {})}
        alive = set(al)
        while True:
            bad = set()
            for e in V.edges:
                for m in [m for m in alive if al[m] == e.dst]:
                    v = F.slot_upd(e, m) and e.upd.get(m.args[1])
                    for l, g in leaves(constrain(v, e.pred), e.pred) if v is not None else []:
                        if l is UNDEF or l is self.N or isinstance(l, Poly) and single(l) in alive:
                            continue
                        bad.add(m)
            if not bad:
                break
            alive -= bad
        sb = Subst(an, {m: self.N for m in alive}) if alive else (lambda x: x)
        for e in V.edges:
            e.pred = sb(e.pred)
            e.upd = {k: con_val(sb(v), e.pred) if v is not None else None for k, v in e.upd.items()}
        V.edges = [e for e in V.edges if e.pred is not FALSE]
        V.ins, V.outs = {}, {}
        for e in V.edges:
            V.ins.setdefault(e.dst, []).append(e)
            V.outs.setdefault(e.src, []).append(e)
        both = lambda x: sb(acc(x))
        pred = lambda x: p_and(both(x), inv)
        for e in F.events:
            n = copy.copy(e)
            n.pred = pred(e.pred)
            if n.pred is not FALSE:
                n.args = tuple(con_val(both(a), n.pred) if hasattr(a, "id") else a for a in e.args)
                V.events.append(n)
        V.exits = [(c, pred(p), v, s) for c, p, v, s in F.exits]
        V.exits = [x for x in V.exits if x[1] is not FALSE]
        R = copy.copy(self.R)
        R.f = V
        self.both = both
        return R

    def recpos(self, k):
        return atom(term("recpos", self.h, k, lo=0, hi=(1 << 62)))

    def entry(self, k, a):
        """Field a of the entry at k (a diagram) as creation made it"""
        out = None
        for l, g in leaves(k):
            if l is UNDEF:
                continue
            key = (l.id, a)
            if key not in self.inst:
                P = self.recpos(l)
                self.at[P.id] = l
                self.inst[key] = Subst(self.an, {self.ptr: P})(self.fields[1][a])
            x = self.inst[key]
            out = x if out is None else self.an.merge(g, x, out)
        return out

    def made(self, k):
        """What is known about the record of entry k"""
        key = (k.id, "made")
        if key not in self.inst:
            P = self.recpos(k)
            self.at[P.id] = k
            self.inst[key] = Subst(self.an, {self.ptr: P})(self.fields[2])
        return self.inst[key]


class Exit:
    """The way out of an operation, as an edge"""

    def __init__(self, cp, pred):
        self.src, self.dst, self.pred, self.upd = cp, None, pred, {}


def single(p):
    if isinstance(p, Poly) and not p.const and len(p.terms) == 1:
        (m, c), = p.terms
        if c == 1 and len(m) == 1:
            return m[0]
    return None


class Records(File):
    """The blocks of the records that belong to entries"""

    def __init__(self, I, R):
        self.I, self.R, self.an, self.h = I, R, R.an, I.h
        self.recs, self.pays, self.blocks, self.heads = {}, {}, {}, {}
        todo = [e.pred for e in R.f.edges] + [e.pred for e in R.f.events] + [e.args for e in R.f.events if e.kind == "obs"]
        for t in terms_in(tuple(todo)):
            if t.op == "recpos":
                P = atom(t)
                I.at.setdefault(P.id, t.args[1])
                for l, g in leaves(self.data(P).msg):
                    if l is not UNDEF:
                        self.blocks[l] = P, g


def groups_end(I, R, file):
    def f(t):
        P = I.recpos(t[0])
        n = file.over(P, lambda b: R.s.rlen(b, 2))
        return p_or(p_not(file.rec(P).type.data), p_and(file.is_data(P), R.an.ile(n, t[1])))
    return f


class IndexCoverage(Coverage):
    """Elements of a file by (entry, group, position)"""

    def __init__(self, I, R, file, kind, events, what, skip):
        """skip(k): the record of entry k is known to have no element of this kind"""
        self.I, self.file = I, file
        groups = groups_end(I, R, file)

        def elements(t):
            return file.over(I.recpos(t[0]), lambda b: list_end(R, b, kind)(t[1:]))
        self.plain = [lambda t: le(I.N, t[0]), groups, elements]
        super().__init__(R, [self.plain[0], lambda t: p_or(groups(t), skip(t[0])), elements], events, what)

    def strengthen(self, g, tup):
        return p_and(g, self.I.made(tup[0])) if isinstance(tup[0], Poly) else g

    def inside(self, p, tup):
        return all(isinstance(x, Poly) for x in tup) and all(p_and(self.strengthen(p, tup), e(tup)) is FALSE for e in self.plain)


# ---------------------------------------------------------------- conditions under which blocks are skipped
class Skips:
    """Conditions on the changing fields of an entry under which an operation takes a different path"""

    def __init__(self, I, R, file):
        self.I, self.R, self.file = I, R, file
        an = R.an
        self.E = term("entry", ty=I.ety)
        self.conds = {}
        self.entries = []
        for e in R.f.edges:
            for E in {c[0].id: c[0] for t in terms_in(e.pred) for c in [chain(t, I.ety)] if c is not None and t.op in ("fld", "disc") and c[0].op == "elem"}.values():
                if E not in self.entries:
                    self.entries.append(E)
                P = I.recpos(E.args[1])
                p = p_and(e.pred, file.rec(P).type.data)
                p = exists(p, lambda v: not self.about(v, E))
                q = self.generic(p, E)
                if q is TRUE or q is FALSE:
                    continue
                self.conds.setdefault(q.id, q)

    def about(self, v, E):
        """Does a variable depend on changing fields of E only?"""
        ts = [t for m, _ in v.terms for t in m]
        return all(self.mine(t, E) for t in ts)

    def mine(self, t, E):
        c = chain(t, self.I.ety)
        return c is not None and c[0] is E

    def generic(self, p, E):
        return Rebase(self.R.an, self.I.ety, {E.id: self.E})(p)

    def on(self, q, E):
        """Condition q for the entry term E"""
        return Rebase(self.R.an, self.I.ety, {self.E.id: E})(q)

    def of(self, q, v):
        """Condition q for the entry value v"""
        an, ety = self.R.an, self.I.ety

        def f(E, a):
            return self.I.kids(v)[a] if E is self.E else None
        return Access(an, ety, f)(q)


class Rebase(Subst):
    """Replace entries below field accesses"""

    def __init__(self, an, ety, m):
        self.an, self.ety, self.ids = an, ety, m
        self.m, self.by, self.syms, self.memo = {}, {0: None}, frozenset(), {}

    def go(self, v):
        if isinstance(v, T) and v.id in self.ids:
            return self.ids[v.id]
        return Subst.go(self, v)


def defined(p):
    return map1(lambda x: FALSE if x is UNDEF else x, p)


def bare(v, p):
    """The slot that a value is, None if it is something else"""
    ls = [l for l, _ in leaves(constrain(v, p), p) if l is not UNDEF]
    return single(ls[0]) if len(ls) == 1 else None


class Region(Coverage):
    """The loops between the start of an entry and the update of its ranges: which elements have they passed?"""

    deep = 3

    def __init__(self, W, kind):
        self.W = W
        R, file, P = W.R, W.file, W.P
        V = copy.copy(R.f)
        V.edges, V.ins, V.outs, V.exits = W.edges, {}, {}, []
        for e in V.edges:
            V.ins.setdefault(e.dst, []).append(e)
            V.outs.setdefault(e.src, []).append(e)
        R = copy.copy(R)
        R.f = V

        def groups(t):
            return R.an.ile(file.over(P, lambda b: R.s.rlen(b, 2)), t[0])

        def elements(t):
            return file.over(P, lambda b: list_end(R, b, kind)(t))
        super().__init__(R, [groups, elements], [], "")

    def counters(self):
        """Slots that some edge increases by one"""
        F = self.W.R.f
        out = set()
        for e in F.edges:
            for k, (m, _) in F.cps[e.dst].mus.items():
                if m is not None and m in F.live and m not in F.sol.get(e.dst, {}) and F.is_int_slot(m) and bound(self.an, m) >= 0:
                    v = e.upd.get(k)
                    if v is not None and any(l is padd(atom(m), ONE) or isinstance(l, Poly) and single(padd(l, num(-1))) is not None for l, _ in leaves(v)):
                        out.add(m)
        return out

    def options(self):
        F = self.W.R.f
        cs = self.counters()
        out = {}
        for c in self.W.cps:
            al = F.alive(F.cps[c])
            ts = [atom(t) for t in cs if t.syms <= al and not t.syms & self.W.i.syms]
            out[c] = [(g, p) for g in [ZERO] + ts + [padd(t, ONE) for t in ts] for p in [ZERO] + ts if g is not p or g is ZERO]
        return out

    def solve(self):
        F, S = self.F, self.options()
        S[0] = [self.start]
        memo = {}

        def step(e, y, x):
            k = id(e), key_of(y), key_of(x)
            if k not in memo:
                to = self.on_edge(e, x)
                opts = [y] + [self.after(y)] * self.W.passes(e, y)
                memo[k] = any(self.same(to, tuple(constrain(z, e.pred) for z in o), e.pred) for o in opts)
            return memo[k]
        changed = True
        while changed:
            changed = False
            for e in F.edges:
                keep = [x for x in S[e.dst] if any(step(e, y, x) for y in S[e.src])]
                if len(keep) != len(S[e.dst]):
                    S[e.dst], changed = keep, True
        return S


class Witness:
    """An element at an arbitrary position that the loops have passed makes a condition false"""

    def __init__(self, I, R, file, update, q, of):
        self.I, self.R, self.file = I, R, file
        self.e, A, self.i, self.v, self.g = update
        self.why = None
        self.goal = defined(p_not(of(q, self.v)))
        # the entry did not meet the condition before
        old = I.an.elem_of(A, self.i, I.ety)
        self.g = p_and(self.g, p_not(defined(of(q, old))))
        mine = lambda v: old.id in {t.id for t in terms_in(v)}
        if isinstance(old, T) and any(mine(v) for v in support(self.goal)):
            self.goal = p_not(exists(constrain(p_not(self.goal), p_and(self.e.pred, self.g)), mine))
        self.P = I.recpos(self.i)
        F = R.f
        end, heads = self.e.src, set(self.i.syms)
        self.cps, todo = set(), [end]
        while todo:
            c = todo.pop()
            if c in self.cps or c in heads or c == 0:
                continue
            self.cps.add(c)
            todo += [e.src for e in F.ins.get(c, [])]
        self.inner, self.edges = [], []
        for e in F.edges:
            if e.dst in self.cps:
                n = copy.copy(e)
                if e.src in self.cps:
                    self.inner.append(n)
                else:
                    n.src = 0
                self.edges.append(n)

    def spread(self):
        """The condition at every loop head: slots that are copied keep their role"""
        F, an = self.R.f, self.R.an
        Q = {self.e.src: self.goal}
        more = True
        while more:
            more = False
            for e in self.inner:
                if e.dst in Q and e.src not in Q:
                    m = {}
                    for t in terms_in(Q[e.dst]):
                        if t.op == "mu" and t.args[0] == e.dst:
                            v = e.upd.get(t.args[1])
                            m[t] = bare(v, e.pred) if v is not None else None
                    if all(x is not None for x in m.values()):
                        Q[e.src] = Subst(an, {t: atom(x) for t, x in m.items()})(Q[e.dst])
                        more = True
                elif e.src in Q and e.dst not in Q:
                    m = {}
                    for t in terms_in(Q[e.src]):
                        if t.op == "mu":
                            to = [atom(s) for k, (s, _) in F.cps[e.dst].mus.items() if s is not None and e.upd.get(k) is not None and bare(e.upd[k], e.pred) is t]
                            m[t] = to[0] if to else atom(t) if t.args[0] != e.dst and F.alive(F.cps[e.dst]).issuperset(t.syms) else None
                    if all(x is not None for x in m.values()):
                        Q[e.dst] = Subst(an, m)(Q[e.src])
                        more = True
        self.Q = Q
        return all(c in Q for c in self.cps)

    def goal_on(self, e):
        return defined(self.R.f.on_edge(e, self.Q[e.dst]))

    def flag(self, kind):
        """Edges on which any element makes the condition false"""
        self.flagged = [e for e in self.inner if self.refuted(p_and(e.pred, p_not(self.goal_on(e))))]

    def refuted(self, p):
        return p is FALSE

    def passes(self, e, y):
        """May the element at y be passed on edge e?"""
        return e in self.flagged

    def prove(self, kind):
        bad = p_and(self.e.pred, p_and(self.g, p_not(self.goal)))
        if bad is FALSE:
            return True
        if self.e.src not in self.cps:
            self.why = "the ranges do not depend on the elements"
            return False
        if not self.spread():
            self.why = "the values that the ranges are made of can not be followed through the loops"
            return False
        self.flag(kind)
        for e in self.inner:
            if not self.refuted(p_and(p_and(self.Q[e.src], e.pred), p_not(self.goal_on(e)))):
                self.why = f"elements are forgotten in {self.R.an.g.nodes[self.R.f.cps[e.dst].node].frame.chain()[0]}"
                return False
        reg = Region(self, kind)
        S = reg.solve()
        lost = [c for c in self.cps if not S[c]]
        if lost:
            self.why = "not every element is looked at"
            return False
        if not any(reg.same(y, None, p_and(self.e.pred, self.g)) for y in S[self.e.src]):
            self.why = "the ranges are set before every element was looked at"
            return False
        return True


class Site:
    """A place in the program, for reports"""

    def __init__(self, R, cp, pred, sp=None):
        nd = R.an.g.nodes[cp.node]
        self.sp, self.frame, self.pred, self.cp = nd.sp, nd.frame, pred, cp.id

# ---------------------------------------------------------------- rules
OPERATIONS = ("x_index", "x_nodes", "x_ways")


class At:
    def __init__(self, cp):
        self.src = cp


def lasting(I):
    """Whatever an operation's outcome, it leaves the index empty or complete"""
    an, F, C = I.an, I.F, I.C
    for cp, p, v, store in F.exits:
        p = F.s(p)
        x = con_val(F.s(I.stored(store)), p)
        bad, ls = FALSE, []
        for s, g, l in I.flow(At(cp), x, p):
            if s not in ("full", "done", "empty", "new"):
                bad = p_or(bad, g)
                ls.append(l)
        site = Site(I.R, F.cps[cp], p)
        nm = f"{I.what}: the operation leaves the index empty or complete [{I.R.name}]"
        if bad is FALSE:
            I.report(Ob(nm, where(site)))
        else:
            missing(I.R, I.report, nm, site, tuple(ls), bad, f"it leaves {short(ls[0], 160)} when {short(bad, 200)}")


def fresh(ctx, report, field, what="C18"):
    """A new reader has an empty index"""
    def f(R):
        for e in R.obs("new"):
            v = e.args[0]
            x = v.kids[field] if isinstance(v, Agg) and field < len(v.kids) else None
            C = Checker(R, report, f"{what} [x_new]")
            if x is None:
                report(Ob(f"{what}: a new reader has an empty index [x_new]", where(e), undecided="the index is not found"))
            else:
                C.equal("a new reader has an empty index", e, R.an.len_of(x), ZERO, e.pred)
    with_root(ctx, report, "x_new", f, "idx")


class Operations:
    """All operations on the index"""

    def __init__(self, ctx, report, what):
        self.ok = True
        self.I, self.R, self.files, self.held = {}, {}, {}, {}
        for n in OPERATIONS:
            def f(R, n=n):
                self.I[n] = Tracked(R, report, what)
            with_root(ctx, report, n, f, "idx")
        if len(self.I) < len(OPERATIONS):
            self.ok = False
            return
        for I in self.I.values():
            if not I.creation():
                report(Ob(f"{what}: the index is created [{I.R.name}]", I.R.name, detail="no entry is ever made" if not I.R.an.unknown else None,
                          undecided=f"by calls outside of the analysis ({I.R.unknown_names()})" if I.R.an.unknown else None))
                self.ok = False
                return
        changing = set().union(*(I.changed() for I in self.I.values()))
        for n, I in self.I.items():
            self.R[n] = I.view({i for i in range(len(I.fields[1])) if i not in changing})
            self.files[n] = Records(I, self.R[n])

    def skipping(self, n, kind):
        """skip(k) for operation n, and why other conditions do not count"""
        S = Skips(self.I[n], self.R[n], self.files[n])
        good, why = [], []
        for q in S.conds.values():
            w = self.holds(S, q, kind)
            if w is None:
                good.append(q)
            elif w:
                why.append(w)

        def skip(k):
            p = FALSE
            for E in S.entries:
                if E.args[1] is k:
                    for q in good:
                        p = p_or(p, S.on(q, E))
            return p
        return skip, why

    def holds(self, S, q, kind, witness=None):
        """None: no entry whose block has an element of this kind meets condition q"""
        if q.id in self.held.setdefault(kind, {}):
            return self.held[kind][q.id]
        r = self.held[kind][q.id] = self.holds_(S, q, kind, witness or Witness)
        return r

    def holds_(self, S, q, kind, witness):
        for n, I in self.I.items():
            t = agg(I.an.ty[I.ety]["path"], I.fields[1])
            P = I.fields[0]
            if p_and(p_and(defined(S.of(q, t)), I.fields[2]), Typed(I.R, I.rec(P).header).data) is not FALSE:
                return "it holds for new entries"
        for n, I in self.I.items():
            for u in I.updates(self.R[n].f):
                W = witness(I, self.R[n], self.files[n], u, q, S.of)
                if not W.prove(kind):
                    return f"{W.why} [{n}]"
        return None


def failures(R, I, file, C):
    """Errors have a cause"""
    F = R.f
    sk = lambda P: lift(lambda a, b: test(atom(term("seekerr", a, b, lo=0, hi=1)), 1, 1), I.h, P)
    for e in R.obs(*ERRORS):
        cause, known = sk(ZERO), TRUE
        if e.cp in I.heads and any(s == "building" and I.slots[m] == e.cp for m, s in I.st.items()):
            r = I.rec(I.heads[e.cp])
            cause = p_or(cause, p_or(p_and(p_not(r.none), p_not(r.header_ok)), p_and(r.header_ok, sk(r.next))))
        for t in terms_in(e.pred):
            if t.op == "recpos":
                P = atom(t)
                known = p_and(known, I.made(t.args[1]))
                cause = p_or(cause, p_or(sk(P), p_and(file.rec(P).type.data, p_not(file.is_data(P)))))
        C.implies(f"the error '{e.name}' has a cause", e, p_and(e.pred, known), cause, "an error is reported although nothing failed")


def succeeded(R):
    """The exits after a success"""
    F = copy.copy(R.f)
    ok = {}
    for e in R.obs("ok"):
        ok[e.cp] = p_or(ok.get(e.cp, FALSE), e.pred)
    F.exits = [(c, p_and(p, ok.get(c, FALSE)), v, s) for c, p, v, s in F.exits]
    F.exits = [x for x in F.exits if x[1] is not FALSE]
    R = copy.copy(R)
    R.f = F
    return R


@rule("C18", "typestate of the index vector (empty, under construction up to the reader's position, complete) at every loop head and exit of every operation; coverage of the data records' nodes by an (entry, group, position) counter; every condition under which a block is skipped is proved to fail, by induction over the loops that compute the ranges, for an entry whose block has a node at an arbitrary position")
def c18(ctx, report):
    O = Operations(ctx, report, "C18")
    for I in O.I.values():
        lasting(I)
    if O.I:
        fresh(ctx, report, next(iter(O.I.values())).field)
    if not O.ok:
        return
    R, I, file = O.R["x_nodes"], O.I["x_nodes"], O.files["x_nodes"]
    R = succeeded(R)
    C = Checker(R, report, "C18")
    for nm, kind in (("node", "Node"), ("dense", "dense")):
        w = f"C18: {kind}"
        evs = []
        for e in R.obs(nm):
            evs.append((e, [(g, (I.at[P.id], a, b)) for g, (P, a, b) in file.idents(e, kind, report, f"{w}: the id is the element's")]))
        skip, why = O.skipping("x_nodes", kind)
        for x in why:
            pass
        IndexCoverage(I, R, file, kind, evs, w, skip).run(report)
    for e in R.obs("way", "rel"):
        C.implies("only nodes are reported", e, e.pred, FALSE, "another element is reported")
    failures(R, I, file, C)
