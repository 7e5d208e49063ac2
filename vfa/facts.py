"""Facts about cut points: substitution, slot relations, ghosts and inductive proofs over edges."""
from .dd import *
from .values import *
from .engine import Imprecise, floordiv
from .dd import _gcd


class Subst:
    """Replace terms (by id) by values, rebuilding everything above them."""

    def __init__(self, an, m):
        self.an = an
        self.m = m            # T -> value
        self.keys = {t.id for t in m}
        self.by = {t.id: v for t, v in m.items()}
        self.syms = frozenset(s for t in m for s in t.syms)
        self.memo = {}

    def __call__(self, v):
        if not self.by or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(self(x) if hasattr(x, "id") or isinstance(x, tuple) else x for x in v)
        if not hasattr(v, "id"):
            return v
        if self.syms and self.syms.isdisjoint(syms_of(v)):
            return v
        r = self.memo.get(v.id)
        if r is None:
            r = self.go(v)
            self.memo[v.id] = r
        return r

    def go(self, v):
        an = self.an
        if isinstance(v, T):
            r = self.by.get(v.id)
            if r is not None:
                return r
            if v.op in ("mu", "ev", "evout", "sym"):
                return v
            args = self(v.args)
            if key_of(args) == key_of(v.args):
                return v
            return self.rebuild(v, args)
        if isinstance(v, Poly):
            r = num(v.const)
            for mono, c in v.terms:
                x = num(c)
                for t in mono:
                    y = self(t)
                    y = map1(lambda l: atom(l) if isinstance(l, T) else l, y)
                    x = an.imul(x, y)
                r = an.iadd(r, x)
            return r
        if isinstance(v, Node):
            d = self(v.var)
            kids = [self(k) for k in v.kids]
            r = None
            for l, g in leaves(d):
                if l is UNDEF:
                    continue
                x = kids[0]
                for c, k in zip(v.cuts, kids[1:]):
                    x = self.merge(test(l, c, INF), k, x)
                r = x if r is None else self.merge(g, x, r)
            return UNDEF if r is None else r
        if isinstance(v, Agg):
            return agg(v.tag, [self(x) for x in v.kids])
        if isinstance(v, En):
            return en(self(v.d), {vi: tuple(self(x) for x in k) for vi, k in v.vs})
        if isinstance(v, RefV):
            return self.refs(v.place)
        return v

    def refs(self, pl):
        """References to the places that pl becomes."""
        path = [(TRUE, ())]
        for e in pl.path:
            opts = [(TRUE, e)]
            if e[0] == "e":
                opts = [(g, (e[0], x) + e[2:]) for x, g in leaves(self(e[1])) if x is not UNDEF]
            path = [(p_and(g, g2), p + (x,)) for g, p in path for g2, x in opts]
        r = pl.root
        out = None
        if r[0] == "S":
            roots = leaves(self(r[1]))
        elif r[0] == "K":
            roots = [(r, TRUE)]
            k = self(r[1])
            if k is not r[1]:
                if isinstance(k, Node):
                    roots = [(("K", x), g) for x, g in leaves(k)]
                else:
                    roots = [(("K", k), TRUE)]
                for x, _ in roots:
                    self.an.root_ty.setdefault(x, self.an.root_ty.get(r))
        else:
            roots = [(r, TRUE)]
        for x, g in roots:
            for g2, p in path:
                gg = p_and(g, g2)
                if gg is FALSE or x is UNDEF:
                    continue
                if isinstance(x, tuple):
                    y = self.an.mkref(place(x, p))
                elif isinstance(x, RefV):
                    y = self.an.mkref(place(x.place.root, x.place.path + p))
                else:
                    y = self.an.mkref(place(("S", x, r[2]), p))
                out = y if out is None else ite(gg, y, out)
        return UNDEF if out is None else out

    def merge(self, p, a, b):
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            return ite(p, a, b)
        return self.an.merge(p, a, b)

    def rebuild(self, v, args):
        an = self.an
        if v.op == "len":
            return an.len_of(args[0])
        if v.op == "elem":
            out = None
            for i, g in leaves(args[1]):
                if i is not UNDEF:
                    x = an.elem_of(args[0], i, v.ty)
                    out = x if out is None else self.merge(g, x, out)
            return UNDEF if out is None else out
        if v.op == "deref":
            def d(x):
                if isinstance(x, RefV):
                    return an.read_default(x.place)
                if x is UNDEF:
                    return x
                return term("deref", x, ty=v.ty)
            ls = leaves(args[0])
            out = None
            for x, g in ls:
                y = d(x)
                out = y if out is None else self.merge(g, y, out)
            return out
        if v.op == "fld" and isinstance(args[0], Node):
            return map1(lambda x: x if x is UNDEF else term("fld", x, *args[1:], ty=v.ty), args[0])
        if v.op == "fld" and isinstance(args[0], T) and args[0].op == "defmsg":
            return an.default_value(v.ty, args[0])
        if v.op == "fdiv" or v.op == "div" and bounds(v.args[0])[0] >= 0:
            return map1(lambda x: x if x is UNDEF else floordiv(x, args[1].const), args[0])
        lo, hi = v.lo if v.lo != -INF else None, v.hi if v.hi != INF else None
        ns = [n for n, a in enumerate(args) if isinstance(a, Node)]
        if ns and len(ns) <= 2:
            def dist(i, as_, p):
                if i == len(ns):
                    return term(v.op, *as_, ty=v.ty, lo=lo, hi=hi)
                out = None
                for l, g in leaves(constrain(args[ns[i]], p), p):
                    if l is UNDEF:
                        continue
                    x = dist(i + 1, as_[:ns[i]] + (l,) + as_[ns[i] + 1:], g)
                    out = x if out is None else self.merge(g, x, out)
                return UNDEF if out is None else out
            return dist(0, tuple(args), TRUE)
        return term(v.op, *args, ty=v.ty, lo=lo, hi=hi)


def subst_val(an, v, m):
    return Subst(an, m)(v)


def same_val(an, a, b, p=TRUE):
    """a and b agree wherever p holds (structural on aggregates)."""
    if a is b or p is FALSE:
        return True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.tag == b.tag and len(a.kids) == len(b.kids) and all(same_val(an, x, y, p) for x, y in zip(a.kids, b.kids))
    if isinstance(a, En) and isinstance(b, En):
        if not same_val(an, a.d, b.d, p):
            return False
        for vi, ka in a.vs:
            q = p_and(p, map1(lambda x: FALSE if x is UNDEF else eq(x, num(vi)), a.d))
            if q is FALSE:
                continue
            kb = b.payload(vi)
            if kb is None or len(kb) != len(ka):
                return False
            if not all(same_val(an, x, y, q) for x, y in zip(ka, kb)):
                return False
        return True
    if isinstance(a, (Agg, En)) or isinstance(b, (Agg, En)):
        s, o = (a, b) if is_scalar(a) else (b, a)
        if s is UNDEF or not is_scalar(s):
            return False
        ty = an.find_ty(s)
        if ty is None:
            return False
        try:
            e = an.expand(constrain(s, p), ty)
        except Imprecise:
            return False
        if is_scalar(e):
            return False
        return same_val(an, e, o, p)
    d = p_and(p, map2(lambda x, y: FALSE if x is y else TRUE, a, b))
    if d is FALSE:
        return True
    n = 0
    for x, g in leaves(constrain(a, d), d):
        for y, g2 in leaves(constrain(b, g), g):
            if x is y or g2 is FALSE:
                continue
            n += 1
            if n > 40 or not (isinstance(x, Poly) and isinstance(y, Poly)) or p_and(g2, p_not(eq(x, y))) is not FALSE:
                return False
    return True


def terms_in(v, acc=None, seen=None):
    """All T reachable in a value."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        i = getattr(x, "id", None)
        if i is None or i in seen:
            continue
        seen.add(i)
        if isinstance(x, T):
            acc[i] = x
            st.extend(x.args)
        elif isinstance(x, Poly):
            for m, _ in x.terms:
                st.extend(m)
        elif isinstance(x, Node):
            st.append(x.var)
            st.extend(x.kids)
        elif isinstance(x, Agg):
            st.extend(x.kids)
        elif isinstance(x, En):
            st.append(x.d)
            for _, k in x.vs:
                st.extend(k)
        elif isinstance(x, RefV):
            st.append(x.place)
        elif isinstance(x, Place):
            st.extend(x.root)
            st.extend(x.path)
    return list(acc.values())


def mu_cp(t):
    return t.args[0]


def mu_key(t):
    return t.args[1]


def single_mu(p):
    """(T, offset) if the poly is one mu atom plus a constant"""
    if isinstance(p, Poly) and len(p.terms) == 1:
        (m, c), = p.terms
        if c == 1 and len(m) == 1 and m[0].op == "mu":
            return m[0], p.const
    return None


def all_places(v):
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        i = getattr(x, "id", None)
        if i is None or i in seen:
            continue
        seen.add(i)
        if isinstance(x, Place):
            out.append(x)
            st.extend(x.root)
            st.extend(x.path)
        elif isinstance(x, RefV):
            st.append(x.place)
        elif isinstance(x, T):
            st.extend(x.args)
        elif isinstance(x, Poly):
            for m, _ in x.terms:
                st.extend(m)
        elif isinstance(x, Node):
            st.append(x.var)
            st.extend(x.kids)
        elif isinstance(x, Agg):
            st.extend(x.kids)
        elif isinstance(x, En):
            st.append(x.d)
            for _, k in x.vs:
                st.extend(k)
    return out


class ReIndex(Subst):
    """Replace index polynomials (by id) of element accesses, outermost only."""

    def __init__(self, an, m):
        self.an, self.m, self.memo = an, m, {}
        self.by, self.syms = m, frozenset()

    def go(self, v):
        if isinstance(v, T):
            if v.op in ("mu", "ev", "evout", "sym"):
                return v
            if v.op == "elem" and isinstance(v.args[1], Poly) and v.args[1].id in self.m:
                return self.rebuild(v, (self(v.args[0]), self.m[v.args[1].id]))
        if isinstance(v, RefV):
            pl = v.place
            r = pl.root
            if r[0] in ("S", "K"):
                r = (r[0], self(r[1])) + r[2:]
                if r[0] == "K":
                    self.an.root_ty.setdefault(r, self.an.root_ty.get(pl.root))
            return self.an.mkref(place(r, tuple((e[0], self.m.get(e[1].id, e[1])) + e[2:] if e[0] == "e" else e for e in pl.path)))
        return Subst.go(self, v)


class Facts:
    """Edges, events and exits of an analysis with the slots of each cut point reduced to
    representatives (slots that always differ by a loop invariant amount share one)."""

    def __init__(self, an):
        self.an = an
        self.cps = {c.id: c for c in an.cplist if c.store is not None}
        self.memo = set()
        self.freeze()
        self.ins = {}
        self.outs = {}
        for e in an.edges:
            self.ins.setdefault(e.dst, []).append(e)
            self.outs.setdefault(e.src, []).append(e)
        self.liveness()
        self.infer()
        self.rewrite()
        self.strides()
        self.bounds()
        self.ranges()

    def seen(self):
        """The events that a rule may look at: overflow is no subject of any"""
        return [e for e in self.an.events if e.kind != "panic" or e.name != "overflow"]

    def freeze(self):
        """Locals that hold the same value at all cut points at which they exist"""
        frozen, gone = {}, set()
        for c in sorted(self.cps.values(), key=self.an.order_of):
            for r, v in c.store.items():
                if r[0] not in ("L", "tmp") or r in gone or v is UNDEF:
                    continue
                o = frozen.get(r)
                if o is None:
                    frozen[r] = v
                elif o is not v and con_val(o, c.pred) is not con_val(v, c.pred):
                    gone.add(r)
                    del frozen[r]
        self.an.frozen = frozen

    def liveness(self):
        """The slots that decide a branch, an observation or a result, now or later"""
        an = self.an
        mus = lambda v: {t for t in terms_in(v) if t.op == "mu"}
        live = set()
        for e in an.edges:
            live |= mus(e.pred)
        for e in self.seen():
            live |= mus((e.pred,) + tuple(e.args))
        for c, p, v, _ in an.exits:
            live |= mus((p, v))
        todo = True
        while todo:
            todo = False
            for e in an.edges:
                for k, m in self.slots(self.cps[e.dst]):
                    if m in live and (id(e), k) not in self.memo:
                        self.memo.add((id(e), k))
                        v = e.upd.get(k)
                        if v is not None and not live.issuperset(mus(v)):
                            live |= mus(v)
                            todo = True
        self.live = live

    def live_slots(self, c):
        return [(k, m) for k, m in self.slots(c) if m in self.live]

    # -- slot relations -------------------------------------------------
    def is_int_slot(self, m):
        return m.ty is None and m.lo != -INF or m.ty is not None and self.an.ty[m.ty]["k"] == "int"

    def signed(self, m):
        return (m.lo if m.ty is None else self.an.ty.range(m.ty)[0]) < 0

    def full_map(self):
        m = {}
        for cid, d in self.sol.items():
            m.update(d)
        return m

    def sub(self, _=None):
        if self._ver_sub != self.ver:
            self._ver_sub, self._sub = self.ver, Subst(self.an, self.full_map())
        return self._sub

    def cval(self, e, key):
        """Canonical value of slot key on edge e."""
        k = (id(e), key)
        r = self._cv.get(k)
        if r is None or r[0] != self.ver:
            r = (self.ver, con_val(self.sub()(e.upd.get(key)), self.cpred(e)))
            self._cv[k] = r
        return r[1]

    def cpred(self, e):
        r = self._cp.get(id(e))
        if r is None or r[0] != self.ver:
            r = (self.ver, self.sub()(e.pred))
            self._cp[id(e)] = r
        return r[1]

    def infer(self):
        an = self.an
        self.sol = {c: {} for c in self.cps}
        self.ver, self._ver_sub, self._cv, self._cp = 0, -1, {}, {}
        self.order = sorted(self.cps.values(), key=an.order_of)
        self.cand, self.gen = {}, {}
        self.tried, self.gains, self.last = {}, 0, {}
        started = set()
        while True:
            nxt = next((c for c in self.order if c.id not in started and
                        (not self.ins.get(c.id) or any(e.src in started for e in self.ins[c.id]))), None)
            if nxt is None:
                break
            self.started = started
            self.start(nxt)
            started.add(nxt.id)
        self.started = started
        for _ in range(200):
            changed = False
            for c in self.order:
                bad = self.broken(c)
                if bad:
                    changed = True
                    for key, m in bad:
                        self.advance(c, key, m)
            if not changed:
                # slots without a relation may find one now
                for c in self.order:
                    for key, m in self.live_slots(c):
                        if m not in self.sol[c.id] and self.gen[m] < 8 and self.last.get(m) != self.gains:
                            self.last[m] = self.gains
                            self.cand[m] = []
                            self.advance(c, key, m)
                            changed |= m in self.sol[c.id]
            if not changed:
                return
        self.sol = {c: {} for c in self.cps}
        self.ver += 1

    def slots(self, c):
        return [(k, m) for k, (m, _) in c.mus.items() if m is not None]

    def start(self, c):
        for key, m in self.live_slots(c):
            self.cand[m] = self.candidates(c, key, m)
            self.gen[m] = 0
            if self.cand[m]:
                self.sol[c.id][m] = self.cand[m].pop(0)
                self.ver += 1

    def advance(self, c, key, m):
        old = self.sol[c.id].pop(m, None)
        self.ver += 1
        if old is not None:
            self.tried[m, old.id] = self.gains
        if not self.cand[m] and self.gen[m] < 8:
            self.gen[m] += 1
            self.cand[m] = self.candidates(c, key, m)
        used = {t for v in self.sol[c.id].values() for t in terms_in(v) if t.op == "mu"}
        while self.cand[m] and m not in used:
            x = self.cand[m].pop(0)
            if any(t in self.sol[c.id] for t in terms_in(x)) or self.tried.get((m, x.id)) == self.gains:
                continue
            self.sol[c.id][m] = x
            self.gains += 1
            self.ver += 1
            return

    def outer_ok(self, c, v):
        rpo = lambda x: self.an.g.nodes[x.node].rpo
        me = rpo(c)
        by = self.cps
        return all(i in by and rpo(by[i]) < me for i in syms_of(v) if i != c.id)

    def alive(self, c):
        """The cut points whose symbols still mean the same at c"""
        k = ("alive", c.id)
        r = self._cv.get(k)
        if r is None:
            r = set(syms_of(c.pred))
            for v in c.store.values():
                r |= set(syms_of(v))
            r = self._cv[k] = r - {0} | {c.id}
        return r

    def candidates(self, c, key, m):
        an = self.an
        es = [e for e in self.ins.get(c.id, []) if e.src in self.started]
        if not es:
            return []
        fwd = [e for e in es if an.order_of(self.cps[e.src]) < an.order_of(c)]
        out = []
        free = [(k, t) for k, t in self.live_slots(c) if t is not m and t not in self.sol[c.id] and self.is_int_slot(t)]
        used = {t for v in self.sol[c.id].values() for t in terms_in(v) if t.op == "mu"}
        if m in used:
            return []
        for e in (fwd + [x for x in es if x not in fwd])[:3]:
            p = self.cpred(e)
            v = self.cval(e, key)
            if v is None or v is UNDEF:
                continue
            if self.is_int_slot(m):
                for k, t in free:
                    if self.signed(t) != self.signed(m):
                        continue
                    if t.id > m.id and not any(t is x for x in used):
                        continue
                    d = self.diff(v, self.cval(e, k), p)
                    if d is not None and c.id not in d.syms and self.outer_ok(c, d):
                        x = padd(atom(t), d)
                        if x not in out:
                            out.append(x)
            idx = {}
            for t in terms_in(v):
                if t.op == "elem" and isinstance(t.args[1], Poly):
                    idx[t.args[1].id] = t.args[1]
            if any(x is not None for x in [v]) and isinstance(v, (T, Poly, Node, RefV, Agg)):
                for r in (v.place.path if isinstance(v, RefV) else ()):
                    if r[0] == "e":
                        idx[r[1].id] = r[1]
                if isinstance(v, Node):
                    for l, _ in leaves(v):
                        if isinstance(l, RefV):
                            for r in l.place.path + (l.place.root[1].place.path if isinstance(l.place.root[1], RefV) else ()):
                                if r[0] == "e":
                                    idx[r[1].id] = r[1]
                for t in all_places(v):
                    for r in t.path:
                        if r[0] == "e" and isinstance(r[1], Poly):
                            idx[r[1].id] = r[1]
            if idx and len(idx) <= 3 and self.complex(v):
                opts = []
                for d in idx.values():
                    o = []
                    for k, t in free:
                        if self.signed(t):
                            continue
                        u = self.cval(e, k)
                        dd = self.diff(d, u, p)
                        if dd is not None and dd.is_const():
                            o.append((d, padd(atom(t), dd)))
                    # an index that does not change with this cut point may stay
                    if c.id not in d.syms and self.outer_ok(c, d):
                        o.append((d, d))
                    opts.append(o[:8])
                combos = [()]
                for o in opts:
                    combos = [x + (y,) for x in combos for y in o][:40]
                for x in combos:
                    if len(x) != len(opts):
                        continue
                    try:
                        w = ReIndex(an, {d.id: n for d, n in x})(v)
                    except Imprecise:
                        continue
                    if self.outer_ok(c, w) and w not in out and not (c.id in w.syms and m in terms_in(w)):
                        out.append(w)
        if self.is_int_slot(m) and m not in used:
            for e in es:
                L = self.saturation(m, self.cval(e, key))
                if L is None or not self.outer_ok(c, L) or any(t is m or t in self.sol[c.id] for t in terms_in(L)):
                    continue
                for k, t in free:
                    if any(self.diff(self.cval(e2, k), ZERO, self.cpred(e2)) is not None for e2 in fwd) and any(
                            self.diff(self.cval(e2, k), padd(atom(t), ONE), self.cpred(e2)) is ZERO for e2 in es):
                        x = map1(lambda l: l if l is UNDEF or l is ZERO else ite(self.an.ile(atom(t), l), atom(t), l), L)
                        if x not in out:
                            out.append(x)
        score = {}
        for x in out:
            score[x.id] = sum(1 for e in es if self.holds(e, key, x))
        out.sort(key=lambda x: -score[x.id])
        return out[:60]

    def saturation(self, m, v):
        """The bound at which a counting slot stops, if v is 'count on until the bound'."""
        if not isinstance(v, Node):
            return None
        me = atom(m)
        if any(l is not UNDEF and l is not me and l is not padd(me, ONE) for l, _ in leaves(v)):
            return None

        def go(x):
            if x is me or x is UNDEF:
                return ZERO
            if isinstance(x, Poly):
                return None
            b = None
            if isinstance(x.var, Poly) and m.id in {t.id for t in terms_in(x.var)}:
                b = padd(x.var, me)
                if m.id in {t.id for t in terms_in(b)}:
                    b = psub(me, x.var)
            if b is not None:
                return None if isinstance(b, Poly) and m.id in {t.id for t in terms_in(b)} else b
            r = None
            for n, k in enumerate(x.kids):
                y = go(k)
                if y is None:
                    return None
                r = y if r is None else ite(test(x.var, x.cuts[n - 1], INF), y, r)
            return r
        return go(v)

    def holds(self, e, key, x):
        v = self.cval(e, key)
        if v is UNDEF or v is None:
            return True
        p = self.cpred(e)
        k = ("em", id(e))
        r = self._cv.get(k)
        if r is None or r[0] != self.ver:
            r = self._cv[k] = (self.ver, Subst(self.an, self.edge_map(e)))
        return same_val(self.an, v, con_val(r[1](x), p), p)

    def complex(self, v):
        return not (isinstance(v, Poly) and all(t.op == "mu" for mono, _ in v.terms for t in mono))

    def diff(self, a, b, p):
        if a is None or b is None or not is_scalar(a) or not is_scalar(b):
            return None
        d = map2(lambda x, y: psub(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else UNDEF, a, b)
        ls = leaves(constrain(d, p), p)
        if len(ls) == 1 and isinstance(ls[0][0], Poly):
            return ls[0][0]
        return None

    def edge_map(self, e):
        m = {}
        for key, t in self.slots(self.cps[e.dst]):
            x = self.cval(e, key)
            m[t] = x if x is not None else UNDEF
        return m

    def broken(self, c):
        bad = []
        keyof = {m: k for k, m in self.slots(c)}
        todo = dict(self.sol[c.id])
        for e in self.ins.get(c.id, []):
            for m, x in list(todo.items()):
                if not self.holds(e, keyof[m], x):
                    bad.append((keyof[m], m))
                    del todo[m]
        return bad

    def rewrite(self):
        s = self.sub()
        an = self.an
        self.edges = []
        for e in an.edges:
            n = type(e)()
            n.src, n.dst, n.pred = e.src, e.dst, s(e.pred)
            n.store, n.ret = e.store, e.ret
            n.upd = {k: con_val(s(v), n.pred) if v is not None else None for k, v in e.upd.items()}
            if n.pred is not FALSE:
                self.edges.append(n)
        self.events = []
        for e in self.seen():
            n = type(e)()
            for a in e.__slots__:
                setattr(n, a, getattr(e, a, None))
            n.pred = s(e.pred)
            n.args = tuple(con_val(s(a), n.pred) if hasattr(a, "id") else a for a in e.args)
            if n.pred is not FALSE:
                self.events.append(n)
        self.exits = [(c, s(p), con_val(s(v), s(p)), st) for c, p, v, st in an.exits]
        self.exits = [x for x in self.exits if x[1] is not FALSE]
        self.ins, self.outs = {}, {}
        for e in self.edges:
            self.ins.setdefault(e.dst, []).append(e)
            self.outs.setdefault(e.src, []).append(e)
        self.s = s

    # -- strides -----------------------------------------------------------
    def strides(self):
        """A slot that starts at D and moves by multiples of s >= 2 becomes D + s * n for a counting slot n."""
        an, m = self.an, {}
        for c in self.order:
            for key, t in list(self.slots(c)):
                if t in self.sol[c.id] or not self.is_int_slot(t):
                    continue
                D, steps, ok = None, set(), True
                for e in self.ins.get(c.id, []):
                    v = e.upd.get(key)
                    ls = [l for l, _ in leaves(v, e.pred) if l is not UNDEF] if v is not None and is_scalar(v) else [None]
                    for l in ls:
                        d = psub(l, atom(t)) if isinstance(l, Poly) else None
                        if d is not None and d.is_const():
                            steps.add(d.const)
                        elif isinstance(l, Poly) and c.id not in l.syms and (D is None or D is l) and self.outer_ok(c, l):
                            D = l
                        else:
                            ok = False
                g = 0
                for x in steps:
                    g = _gcd(g, x)
                if ok and D is not None and g >= 2 and min(steps) > 0:
                    n = term("mu", c.id, ("stride", key), t.args[2] + "/" + str(g), ty=None, lo=0, hi=t.hi, sym=c.id)
                    m[t] = (n, D, g, c, key)
        if not m:
            return
        s = Subst(an, {t: padd(D, pscale(atom(n), g)) for t, (n, D, g, c, key) in m.items()})
        for e in self.edges:
            e.pred = s(e.pred)
            e.upd = {k: con_val(s(v), e.pred) if v is not None else None for k, v in e.upd.items()}
            for t, (n, D, g, c, key) in m.items():
                if e.dst == c.id:
                    v = e.upd.pop(key, None)
                    m2 = Subst(an, self.upd_map_u(e))
                    e.upd["stride", key] = None if v is None else map1(
                        lambda l: l if l is UNDEF else self.exact_div(psub(l, m2(s(D)) if c.id in s(D).syms else s(D)), g), v)
        same = {}
        for t, (n, D, g, c, key) in list(m.items()):
            sig = [c.id]
            for e in self.ins.get(c.id, []):
                v = e.upd.get(("stride", key))
                sig.append(key_of(v if v is None or not (isinstance(v, Poly) and c.id in v.syms) else padd(psub(v, atom(n)), num(1 << 80))))
            first = same.setdefault(tuple(sig), n)
            if first is not n:
                self.sol[c.id][n] = atom(first)
        for t, (n, D, g, c, key) in m.items():
            c.mus[("stride", key)] = (n, None)
            del c.mus[key]
            self.sol[c.id] = {k: s(v) for k, v in self.sol[c.id].items()}
        for e in self.events:
            e.pred = s(e.pred)
            e.args = tuple(con_val(s(a), e.pred) if hasattr(a, "id") else a for a in e.args)
        self.exits = [(c, s(p), con_val(s(v), s(p)), st) for c, p, v, st in self.exits]
        eqs = {n: x for d in self.sol.values() for n, x in d.items() if mu_key(n)[0] == "stride"}
        if eqs:
            z = Subst(an, eqs)
            for e in self.edges:
                e.pred = z(e.pred)
                e.upd = {k: con_val(z(v), e.pred) if v is not None else None for k, v in e.upd.items()}
            for e in self.events:
                e.pred = z(e.pred)
                e.args = tuple(con_val(z(a), e.pred) if hasattr(a, "id") else a for a in e.args)
            self.exits = [(c, z(p), con_val(z(v), z(p)), st) for c, p, v, st in self.exits]
        old = self.s
        self.s = lambda v: Subst(an, eqs)(s(old(v)))

    def exact_div(self, l, g):
        return poly({m: c // g for m, c in l.terms}, l.const // g) if all(c % g == 0 for _, c in l.terms) and l.const % g == 0 else UNDEF

    def ranges(self):
        """For a slot n that counts iterations from 0: what every iteration before n satisfied."""
        self.range = {}
        for c in self.order:
            es = self.ins.get(c.id, [])
            back = [e for e in es if self.an.order_of(self.cps[e.src]) >= self.an.order_of(c)]
            if not back or any(e.src != c.id for e in back):
                continue
            for key, n in self.slots(c):
                if n in self.sol[c.id] or not self.is_int_slot(n) or n.lo < 0:
                    continue
                me = atom(n)
                if not all(e.upd.get(key) is (padd(me, ONE) if e in back else ZERO) for e in es):
                    continue
                p = FALSE
                for e in back:
                    p = p_or(p, e.pred)
                others = {t.id for _, t in self.slots(c)} - {n.id}
                p = exists(p, lambda v: any(t.id in others for t in terms_in(v)))
                self.range[c.id] = (n, p)

    def earlier(self, cid, i):
        """What iteration i of the loop at cid satisfied (0 <= i < n)"""
        n, p = self.range[cid]
        k = ("range", cid, i.id)
        r = self._cv.get(k)
        if r is None:
            r = self._cv[k] = Subst(self.an, {n: i})(p)
        return r

    # -- inequalities ----------------------------------------------------
    def guard_vars(self, p):
        """[(poly, cuts)] tested by a predicate"""
        out, seen, st = {}, set(), [p]
        while st:
            x = st.pop()
            if not isinstance(x, Node) or x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x.var, Poly) and len(x.var.terms) <= 4 and all(
                    len(m) == 1 and (m[0].op in ("mu", "len") or m[0].op not in ("disc", "elem") and (m[0].lo == 0)) for m, _ in x.var.terms):
                out.setdefault(x.var, set()).update(x.cuts)
            st.extend(x.kids)
        return out

    def owned(self, c, p, w):
        """Where p tests w, in terms of what is tested on the way to c; None if that is always so at c"""
        sup = {x.id for x in support(c.pred)}
        memo = {}

        def go(x):
            if not isinstance(x, Node):
                return FALSE
            if x.var is w:
                return TRUE
            r = memo.get(x.id)
            if r is None:
                kids = [go(k) for k in x.kids]
                if x.var.id in sup:
                    r = case(x.var, x.cuts, kids)
                else:
                    r = FALSE
                    for k in kids:
                        r = p_or(r, k)
                memo[x.id] = r
            return r
        g = go(p)
        return None if p_and(c.pred, p_not(g)) is FALSE else g

    def difference(self, b):
        cs = [k for _, k in b.terms]
        return len(cs) <= 3 and all(abs(k) == 1 for k in cs) and (len(cs) == 1 or min(cs) < 0 < max(cs)) and abs(b.const) <= 4

    def usable(self, c, v):
        return (self.outer_ok(c, v) or self.alive(c).issuperset(syms_of(v))) and not any(
            t.op == "mu" and t in self.sol.get(mu_cp(t), ()) for t in terms_in(v))

    def dominators(self):
        """The cut points that every way to a cut point leads through"""
        dom = {c: set(self.cps) if self.ins.get(c) else {c} for c in self.cps}
        more = True
        while more:
            more = False
            for c in self.order:
                ps = [dom[e.src] for e in self.ins.get(c.id, [])]
                new = set.intersection(*ps) | {c.id} if ps else {c.id}
                if new != dom[c.id]:
                    dom[c.id], more = new, True
        return dom

    def bounds(self):
        """Inductive inequalities between slots and lengths: tests of the guards, carried over the edges."""
        inv = {c: {} for c in self.cps}
        subs = {id(e): Subst(self.an, self.upd_map_u(e)) for e in self.edges}
        conj = {c: TRUE for c in self.cps}
        dead = set()
        memo = {}
        dom = self.dominators()

        def on(e, x):
            k = (id(e), x.id)
            if k not in memo:
                memo[k] = subs[id(e)](x)
            return memo[k]

        def ok(e, x):
            p = p_and(e.pred, conj[e.src])
            if p is FALSE:
                return True
            y = on(e, x)
            y = map1(lambda l: FALSE if l is UNDEF else l, y)
            return p_and(p, p_not(y)) is FALSE

        def gen(c):
            out = {}
            own = {}

            def put(x, q, w):
                out[x.id] = x
                k = q.id, w.id
                if k not in own:
                    own[k] = self.owned(c, q, w)
                if own[k] is not None:
                    y = p_or(p_not(own[k]), x)
                    out[y.id] = y
            for e in self.ins.get(c.id, []):
                q = p_and(e.pred, conj[e.src])
                gv = self.guard_vars(q)
                for key, m in self.slots(c):
                    if m in self.sol[c.id] or not self.is_int_slot(m) or key[-1] == "d":
                        continue
                    v = e.upd.get(key)
                    if v is None or not is_scalar(v):
                        continue
                    ls = [l for l, _ in leaves(v) if isinstance(l, Poly)][:3]
                    for v in ls:
                        for w, cuts in gv.items():
                            for r, sg in ((padd(w, v), -1), (psub(w, v), 1)):
                                if r.is_const() or c.id in r.syms:
                                    continue
                                if len(r.terms) >= len(w.terms) + len(v.terms) and not (v.is_const() and len(w.terms) == 1):
                                    continue
                                if not self.usable(c, r):
                                    continue
                                # w = r + sg * m
                                b = padd(r, pscale(atom(m), sg))
                                if not self.difference(b):
                                    continue
                                for k in cuts:
                                    for x in (test(b, k, INF), test(b, -INF, k - 1)):
                                        put(x, q, w)
            for e in self.outs.get(c.id, []):
                for w, cuts in self.guard_vars(e.pred).items():
                    if c.id in w.syms:
                        for k in cuts:
                            for x in (test(w, k, INF), test(w, -INF, k - 1), test(w, k - 1, INF), test(w, -INF, k)):
                                put(x, e.pred, w)
                for x in list(inv[e.dst].values()):
                    for l, _ in leaves(on(e, x)):
                        pass
                    y = on(e, x)
                    for w, cuts in self.guard_vars(y).items():
                        if c.id in w.syms and self.usable(c, w) and self.difference(w):
                            for k in cuts:
                                for z in (test(w, k, INF), test(w, -INF, k - 1)):
                                    put(z, y, w)
            return [x for x in out.values() if isinstance(x, Node)][:300]

        self._dbg = (gen, ok, conj, inv)

        def prune():
            more = True
            while more:
                more = False
                for c in self.order:
                    for e in self.ins.get(c.id, []):
                        bad = [x for x in inv[c.id].values() if not ok(e, x)]
                        if bad:
                            more = True
                            for x in bad:
                                del inv[c.id][x.id]
                                dead.add(x.id)
                            for d in self.order:
                                if d is c or c.id in self.alive(d):
                                    join(d)

        def join(c):
            p = TRUE
            for x in inv[c.id].values():
                p = p_and(p, x)
            al = self.alive(c)
            for d in al & dom[c.id]:
                if d != c.id:
                    for x in inv.get(d, {}).values():
                        if al.issuperset(x.syms):
                            p = p_and(p, x)
            conj[c.id] = p
        for _ in range(3):
            n = sum(len(d) for d in inv.values())
            for c in self.order + self.order:
                if not self.ins.get(c.id):
                    continue
                es = [e for e in self.ins[c.id] if e.src != c.id]
                more = False
                for x in gen(c):
                    if x.id not in inv[c.id] and x.id not in dead and any(ok(e, x) for e in es):
                        inv[c.id][x.id] = x
                        more = True
                if more:
                    for d in self.order:
                        if d is c or c.id in self.alive(d):
                            join(d)
            prune()
            if sum(len(d) for d in inv.values()) == n:
                break
        self.inv = inv
        for e in self.edges:
            e.pred = p_and(e.pred, conj[e.src])
            e.upd = {k: con_val(v, e.pred) if v is not None else None for k, v in e.upd.items()}
        self.edges = [e for e in self.edges if e.pred is not FALSE]
        for e in self.events:
            e.pred = p_and(e.pred, conj[e.cp])
            e.args = tuple(con_val(a, e.pred) if hasattr(a, "id") else a for a in e.args)
        self.events = [e for e in self.events if e.pred is not FALSE]
        self.exits = [(c, p_and(p, conj[c]), con_val(v, p_and(p, conj[c])), st) for c, p, v, st in self.exits]
        self.exits = [x for x in self.exits if x[1] is not FALSE]
        self.ins, self.outs = {}, {}
        for e in self.edges:
            self.ins.setdefault(e.dst, []).append(e)
            self.outs.setdefault(e.src, []).append(e)

    def upd_map_u(self, e):
        return {t: (x if x is not None else UNDEF) for t, x in self.upd_map(e).items()}

    def slot_upd(self, e, m):
        """Value of symbol m (of cut point e.dst) on edge e."""
        return e.upd.get(mu_key(m))

    def upd_map(self, e):
        m = {}
        for key, (t, _) in self.cps[e.dst].mus.items():
            if t is not None:
                m[t] = e.upd.get(key)
        return m

    def on_edge(self, e, v):
        """Value of expression v (over e.dst's symbols) expressed at the source of e."""
        m = {}
        for key, (t, _) in self.cps[e.dst].mus.items():
            if t is not None:
                x = e.upd.get(key)
                m[t] = x if x is not None else UNDEF
        return con_val(Subst(self.an, m)(v), e.pred)

    # -- inductive proofs ------------------------------------------------
    def region_events(self, cid, *names):
        return sorted([e for e in self.events if e.kind == "obs" and e.cp == cid and e.name in names], key=lambda e: e.rpo)
