"""Shared parts of the rules: obligations, element identity, coverage of nested lists, running sums."""
import itertools
import re
import time
from .dd import *
from .values import *
from .engine import Analysis, Imprecise
from .facts import Facts, Subst, same_val, terms_in
from .spec import Spec, SpecError


class Ob:
    def __init__(self, name, where, detail=None, undecided=None):
        self.name, self.where, self.detail, self.undecided = name, where, detail, undecided

    @property
    def ok(self):
        return self.detail is None and self.undecided is None

    def key(self):
        """Identifies the failing obligation and the construct, without line numbers."""
        w = re.sub(r":\d+", "", self.where)
        return f"{self.name} @ {w}"


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + " …"


class Root:
    """Analysis, facts and spec of one client function."""

    def __init__(self, prog, models, name):
        self.prog, self.name = prog, name
        self.error = None
        try:
            self.an = Analysis(prog, models, prog.roots[name]).run()
            self.f = Facts(self.an)
        except Imprecise as e:
            self.error = str(e)
            return
        self.s = Spec(self.an)
        self.unknown_ids = {e.res.id for e in self.an.events if e.kind == "call" and hasattr(e.res, "id")}

    def arg_message(self, i, name):
        body = self.an.body
        ty = body["locals"][i + 1]
        v = self.an.entry_cp.store[self.an.lroot(self.an.g.root, i + 1)]
        m = self.s.find_message(v, ty, name)
        if m is None:
            raise SpecError(f"no {name} message behind argument {i} of {self.name}")
        return m

    def obs(self, *names):
        es = [e for e in self.f.events if e.kind == "obs" and (not names or e.name in names)]
        return sorted(es, key=lambda e: (self.an.order_of(self.f.cps[e.cp]), e.rpo))

    def tainted(self, *vs):
        """Do these values depend on a call that the analysis does not understand?"""
        if not self.an.unknown:
            return False
        for t in terms_in(tuple(v for v in vs if v is not None)):
            if t.op in ("ev", "evout"):
                return True
        return False

    def unknown_names(self):
        return ", ".join(sorted(self.an.unknown)[:4])


def where(e):
    """file:line of the deepest frame inside the library, for a report"""
    ch = e.frame.chain() if e.frame is not None else []
    return f"{e.sp.split('/repo/')[-1] if '/repo/' in e.sp else e.sp.split('/')[-1]} ({ch[0].split('::')[-1] if ch else ''})"


# ------------------------------------------------------------------ element identity
LISTS = {"Node": 1, "Way": 3, "Relation": 4}


def group_index(S, block, G):
    """Index of group message G in the block, or None"""
    if isinstance(G, T) and G.op == "elem" and S.proto_type(G.ty) == "PrimitiveGroup" and G.args[0] is S.rep(block, 2)[0]:
        return G.args[1]
    return None


def elem_ident(S, block, t):
    """(gi, pj) if t is an element message of the block's groups"""
    k = S.proto_type(t.ty) if t.ty is not None else None
    if t.op != "elem" or k not in LISTS:
        return None
    base = t.args[0]
    if not (isinstance(base, T) and base.op == "fld" and isinstance(base.args[0], T)):
        return None
    gi = group_index(S, block, base.args[0])
    if gi is None or S.rep(base.args[0], LISTS[k])[0] is not base:
        return None
    return gi, t.args[1]


def elements_in(R, block, v, kind):
    """Distinct element messages of a kind that a value speaks about: [(term, (gi, pj))]"""
    out = []
    for t in terms_in(v):
        if t.op == "elem" and t.ty is not None and R.s.proto_type(t.ty) == kind:
            i = elem_ident(R.s, block, t)
            if i is not None:
                out.append((t, i))
    return out


def dense_msg(S, block, gi):
    """(present, DenseNodes message) of group gi"""
    G = S.relem(block, 2, gi)
    return S.has(G, 2)


def dense_in(R, block, v, col):
    """Positions at which a value reads column number col of a DenseNodes message: [(term, gi, P)]"""
    S, out = R.s, []
    for t in terms_in(v):
        if t.op != "elem" or not isinstance(t.args[0], T) or t.args[0].op != "fld":
            continue
        D = t.args[0].args[0]
        if not isinstance(D, T) or D.ty is None or S.proto_type(D.ty) != "DenseNodes" or D.op == "defmsg":
            continue
        if S.rep(D, col)[0] is not t.args[0]:
            continue
        gi = dense_group(S, block, D)
        if gi is not None:
            out.append((t, gi, t.args[1]))
    return out


def dense_group(S, block, D):
    for t in terms_in(D):
        gi = group_index(S, block, t)
        if gi is not None:
            p, m = dense_msg(S, block, gi)
            if m is D:
                return gi
    return None


def split_leaves(v, p):
    return [(l, g) for l, g in leaves(v, p) if l is not UNDEF]


# ------------------------------------------------------------------ coverage of nested lists
def tuple_leaves(tup, p):
    """Joint leaves of a tuple of diagrams"""
    out = [((), p)]
    for x in tup:
        out = [(t + (l,), g2) for t, g in out for l, g2 in leaves(constrain(x, g), g) if g2 is not FALSE]
    return out


def behind(x, y):
    """is x visibly less than y in lexicographic order?"""
    for a, b in zip(x, y):
        d = psub(a, b)
        if not d.is_const() or d.const > 0:
            return False
        if d.const < 0:
            return True
    return False


def bound(an, t):
    return t.lo if t.ty is None else an.ty.range(t.ty)[0]


class Coverage:
    """Do the events visit the positions of nested lists in lexicographic order, each exactly once?

    ends[k](tup) is the predicate "tup[k] is at or behind the end of the list designated by tup[:k]".
    events: [(event, pred, [(guard, tuple)])].
    """

    deep = 8

    def __init__(self, R, ends, events, what):
        self.R, self.F, self.an = R, R.f, R.an
        self.ends, self.d, self.what = ends, len(ends), what
        self.by = {}
        for e, ids in events:
            self.by.setdefault(e.cp, []).append((e, ids))
        for l in self.by.values():
            l.sort(key=lambda x: x[0].rpo)
        self.S = {}
        self.memo = {}
        self.start = (ZERO,) * self.d

    def after(self, idt):
        """Position after reporting the element at idt"""
        return idt[:-1] + (padd(idt[-1], ONE),)

    def beyond(self, k, tup, g):
        """[(guard, position)] that follows tup if it is at or behind the end of level k (None: the end of all)"""
        return [(g, None if k == 0 else tup[:k - 1] + (padd(tup[k - 1], ONE),) + (ZERO,) * (self.d - k))]

    def strengthen(self, g, tup):
        return g

    def inside(self, p, tup):
        return all(isinstance(x, Poly) for x in tup) and all(p_and(self.strengthen(p, tup), self.end(k, tup)) is FALSE for k in range(self.d))

    def end(self, k, tup):
        key = (k,) + tuple(x.id for x in tup[:k + 1])
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.ends[k](tup)
        return r

    def lex_eq(self, a, b, g, depth=0):
        """Do two positions (None: the end) mean the same under g?"""
        if g is FALSE or a is b:
            return True
        if a is not None and b is not None:
            if all(p_and(g, p_not(eq(x, y))) is FALSE for x, y in zip(a, b)):
                return True
        if depth > self.deep:
            return False
        split = None
        for x, y in ((a, b), (b, a)):
            if x is None:
                continue
            for k in range(self.d):
                e = self.end(k, x)
                g = self.strengthen(g, x)
                if p_and(g, e) is FALSE:
                    continue
                if p_and(g, p_not(e)) is FALSE:
                    return self.follow(k, x, y, g, depth)
                if split is None or y is not None and behind(x, y):
                    split = (k, x, y, e)
                break
        if split is not None:
            k, x, y, e = split
            return self.follow(k, x, y, p_and(g, e), depth) and self.lex_eq(x, y, p_and(g, p_not(e)), depth + 1)
        return False

    def follow(self, k, x, y, g, depth):
        nxt = self.beyond(k, x, g)
        return nxt is not None and all(self.lex_eq(nx, y, g2, depth + 1) for g2, nx in nxt)

    def same(self, A, B, p):
        """A, B: tuples of diagrams (or None)"""
        la = [(None, p)] if A is None else tuple_leaves(A, p)
        for a, g in la:
            lb = [(None, g)] if B is None else tuple_leaves(B, g)
            for b, g2 in lb:
                if any(x is UNDEF for x in (a or ()) + (b or ())):
                    continue
                if not self.lex_eq(a, b, g2):
                    return False
        return True

    def through(self, c, tup, check=None):
        """Ghost position after the events of c's region"""
        cur = tup
        for e, ids in self.by.get(c, []):
            for g, idt in ids:
                p = p_and(e.pred, g)
                if p is FALSE:
                    continue
                if check is not None:
                    check(e, p, cur, idt)
                nxt = self.after(idt)
                cur = tuple(ite(p, n, o) for n, o in zip(nxt, cur))
        return cur

    def options(self, e, state):
        """Expressions over e.dst's slots that may describe state"""
        F = self.F
        c = F.cps[e.dst]
        em = F.upd_map(e)
        sol = F.sol.get(c.id, {})
        slots = [(t, v) for t, v in em.items() if t not in sol and F.is_int_slot(t) and bound(self.an, t) >= 0 and v is not None and is_scalar(v)]
        tls = []
        for tl, g in tuple_leaves(state, e.pred)[:12]:
            if any(x is UNDEF for x in tl):
                continue
            tls.append((tl, g))
            for k in range(1, self.d):
                nx = tl[:k - 1] + (padd(tl[k - 1], ONE),) + (ZERO,) * (self.d - k)
                tls.append((nx, g))
        comps = []
        for i in range(self.d):
            opts = [ZERO]
            for tl, g in tls:
                x = tl[i]
                if not isinstance(x, Poly):
                    continue
                if (F.outer_ok(c, x) or F.alive(c).issuperset(x.syms)) and c.id not in x.syms and x not in opts:
                    opts.append(x)
                for t, v in slots:
                    for l, g2 in leaves(constrain(v, g), g)[:6]:
                        if not isinstance(l, Poly):
                            continue
                        d = psub(x, l)
                        if d.is_const() and abs(d.const) <= 2:
                            y = padd(atom(t), d)
                            if y not in opts:
                                opts.append(y)
            comps.append(opts[:40])
        return itertools.islice(itertools.product(*comps), 4000)

    def on_edge(self, e, tup):
        k = ("s", id(e))
        s = self.memo.get(k)
        if s is None:
            m = {t: (x if x is not None else UNDEF) for t, x in self.F.upd_map(e).items()}
            s = self.memo[k] = Subst(self.an, m)
        return tuple(constrain(s(x), e.pred) for x in tup)

    def usable(self, c, x):
        F = self.F
        return all(isinstance(y, Poly) and abs(y.const) <= 2 and (y.const >= 0 or not y.is_const()) for y in x) and all(F.outer_ok(F.cps[c], y) or F.alive(F.cps[c]).issuperset(y.syms) for y in x) and not any(
            t in F.sol.get(c, {}) for y in x for t in terms_in(y) if t.op == "mu")

    def candidates(self):
        """Positions that may describe the progress at each loop head: from the reports that follow (their own
        positions, carried backwards along the edges), else from what came before."""
        F = self.F
        cand = {c: {} for c in F.cps}

        def add(c, x):
            if len(cand[c]) < 60 and key_of(x) not in cand[c] and self.usable(c, x):
                cand[c][key_of(x)] = x
                return True
            return False
        cand[0][0] = self.start
        for c, evs in self.by.items():
            for e, ids in evs:
                for g, idt in ids:
                    add(c, idt)

        def backward():
            while True:
                more = False
                for e in F.edges:
                    for x in list(cand[e.dst].values()):
                        k = ("b", id(e), key_of(x))
                        if k in self.memo:
                            continue
                        self.memo[k] = True
                        q = e.pred
                        for ev, _ in self.by.get(e.src, []):
                            q = p_and(q, p_not(ev.pred))
                        if q is FALSE:
                            continue
                        for tl, g in tuple_leaves(self.on_edge(e, x), q)[:6]:
                            more |= add(e.src, tl)
                            for n in range(1, self.d):
                                if all(isinstance(y, Poly) for y in tl) and p_and(g, p_not(self.end(n, tl))) is FALSE:
                                    for _, nx in self.beyond(n, tl, g) or ():
                                        more |= nx is not None and add(e.src, nx)
                if not more:
                    return
        backward()
        for _ in range(3):
            todo = [c for c in F.cps if not cand[c]]
            if not todo:
                break
            for e in sorted(F.edges, key=lambda e: self.an.order_of(F.cps[e.src])):
                if e.dst in todo and cand[e.src]:
                    for y in list(cand[e.src].values())[:8]:
                        state = tuple(constrain(x, e.pred) for x in self.through(e.src, y))
                        for x in itertools.islice(self.options(e, state), 200):
                            if self.same(self.on_edge(e, x), state, e.pred):
                                add(e.dst, x)
            backward()
        return cand

    def run(self, report):
        F = self.F
        order = sorted(F.cps.values(), key=self.an.order_of)
        cand = self.candidates()
        S = {c: list(d.values()) for c, d in cand.items()}
        S[0] = [self.start]
        lost, losses = None, []
        memo = {}

        def step(e, y, x):
            k = (id(e), key_of(y), key_of(x))
            if k not in memo:
                st = tuple(constrain(z, e.pred) for z in self.through(e.src, y))
                memo[k] = self.same(self.on_edge(e, x), st, e.pred)
            return memo[k]
        changed = True
        while changed:
            changed = False
            for c in order:
                for e in F.outs.get(c.id, []):
                    keep = [x for x in S[e.dst] if any(step(e, y, x) for y in S[c.id])]
                    if len(keep) != len(S[e.dst]):
                        changed = True
                        S[e.dst] = keep
                        if not keep and S[c.id]:
                            losses.append((e, tuple(constrain(z, e.pred) for z in self.through(c.id, S[c.id][0]))))
            lost = losses and losses[0] or None
        if all(S[c] for c in S):
            lost = None
        elif lost is None:
            e = next(e for e in F.edges if not S[e.dst])
            lost = (e, (UNDEF,) * self.d)
        if lost is not None:
            lost = next((l for l in losses if not S[l[0].dst]), lost)
        self.S = S
        n = [0]

        def check(e, p, cur, idt):
            n[0] += 1
            ok = self.same(idt, cur, p)
            inside = self.inside(p, idt)
            nm = f"{self.what}: '{e.name}' event reports the next position"
            if ok and inside:
                report(Ob(nm, where(e)))
            else:
                d = f"expected position {short(cur, 160)}, reported position {short(idt, 160)} when {short(p, 200)}" if not ok else f"position {short(idt)} may lie outside of its list"
                self.fail(report, nm, where(e), d, cur + idt + (p,))
        for c in order:
            y = self.S.get(c.id)
            if not y:
                continue
            st = self.through(c.id, y[0], check)
            for cid, p, v, _ in F.exits:
                if cid == c.id:
                    nm = f"{self.what}: everything was reported when the walk ends"
                    n[0] += 1
                    if self.same(st, None, p):
                        report(Ob(nm, self.R.name))
                    else:
                        self.fail(report, nm, self.R.name, f"the walk can end at position {short(st)} under {short(p)}", st + (p,))
        if lost is not None:
            e, state = lost
            c = F.cps[e.dst]
            nd = self.an.g.nodes[c.node]
            self.fail(report, f"{self.what}: the progress is determined at every loop head", nd.sp,
                      f"no position describes the state {short(state)} at the loop in {nd.frame.chain()[0]}", state + (e.pred,))
        return n[0]

    def fail(self, report, nm, wh, detail, vs):
        if self.R.tainted(*vs):
            report(Ob(nm, wh, undecided=f"depends on calls outside of the analysis ({self.R.unknown_names()})"))
        else:
            report(Ob(nm, wh, detail=detail))


# ------------------------------------------------------------------ running sums
class Sums:
    """Is a value the sum of the first P+1 elements of a sequence?"""

    def __init__(self, R):
        self.R, self.F, self.an = R, R.f, R.an
        self.seen = {}
        self.why = None
        self.subs = {}

    def edge_sub(self, e):
        s = self.subs.get(id(e))
        if s is None:
            m = {t: (x if x is not None else UNDEF) for t, x in self.F.upd_map(e).items()}
            s = self.subs[id(e)] = Subst(self.an, m)
        return s

    def cond(self, lens, pos):
        p = TRUE
        for l in lens:
            p = p_and(p, self.an.ile(pos, l))
        return p

    def prefix(self, cp, A, col, P, lens, dom):
        """A (Poly over cp's symbols) == sum(col[0..P)) whenever cp is reached, dom holds and P <= lens"""
        if P.is_const() and P.const == 0:
            if A.is_const() and A.const == 0:
                return True
            if not A.syms:
                self.why = f"the sum starts at {short(A)} instead of 0"
                return False
        k = (cp, A.id, col.id, P.id, dom)
        if k in self.seen:
            return self.seen[k]
        if len(self.seen) > 400:
            self.why = "too many cases"
            return False
        self.seen[k] = True
        if cp == 0:
            self.why = f"at the start the sum is {short(A)} at position {short(P)}"
            self.seen[k] = False
            return False
        for e in self.F.ins.get(cp, []):
            s = self.edge_sub(e)
            ls = tuple(s(l) for l in lens)
            d = s(dom)
            here = p_and(e.pred, d)
            if here is FALSE:
                continue
            tup = tuple(constrain(s(x), here) for x in (A, P, col))
            for (a, pos, cl), g in tuple_leaves(tup, here):
                if any(x is UNDEF for x in (a, pos, cl)):
                    continue
                g = p_and(g, self.cond(ls, pos))
                for l, g2 in leaves(constrain(a, g), g):
                    if g2 is not FALSE and not self.reduce(e.src, l, cl, pos, g2, ls, d):
                        self.seen[k] = False
                        if self.why is None:
                            self.why = f"at the loop in {self.an.g.nodes[self.F.cps[cp].node].frame.chain()[0]}: sum {short(l, 120)} at position {short(pos, 80)}"
                        return False
        return True

    def reduce(self, cp, a, col, pos, g, lens, dom):
        """strip the elements col[pos-1], col[pos-2], … that a visibly contains"""
        an = self.an
        for _ in range(8):
            if pos.is_const() and pos.const == 0:
                if a.is_const() and a.const == 0:
                    return True
                if p_and(g, p_not(eq(a, ZERO))) is FALSE:
                    return True
                break
            x = an.elem_of(col, padd(pos, num(-1)), self.ety)
            if not isinstance(x, Poly):
                break
            (m, c), = x.terms if len(x.terms) == 1 else ((None, None),)
            if any(m2 == m and c2 == c for m2, c2 in a.terms):
                a, pos = psub(a, x), padd(pos, num(-1))
            else:
                break
        if p_and(g, p_not(self.cond(lens, pos))) is not FALSE:
            lens = ()
        return self.prefix(cp, a, col, pos, lens, dom)

    def check(self, cp, V, col, P, ety, g=TRUE, lens=(), dom=TRUE):
        """V == sum(col[0..=P]), if dom holds"""
        self.ety = ety
        self.why = None
        self.seen = {}
        x = self.an.elem_of(col, P, ety)
        if not isinstance(x, Poly):
            self.why = "unexpected element"
            return False
        return self.reduce(cp, V, col, padd(P, ONE), p_and(g, dom), lens, dom)


# ------------------------------------------------------------------ small helpers
def pdiv(p, q):
    """p / q for a q that is a constant or a single monomial; None if it does not divide"""
    if q.is_const():
        c = q.const
        if c == 0 or p.const % c or any(k % c for _, k in p.terms):
            return None
        return poly({m: k // c for m, k in p.terms}, p.const // c)
    if len(q.terms) != 1 or q.const:
        return None
    (qm, qc), = q.terms
    d = {}
    if p.const:
        return None
    for m, k in p.terms:
        l = list(m)
        for a in qm:
            if a not in l:
                return None
            l.remove(a)
        if k % qc:
            return None
        d[tuple(l)] = d.get(tuple(l), 0) + k // qc
    const = d.pop((), 0)
    return poly(d, const)


def compare(R, report, name, e, v, want, p, note=""):
    """Obligation: v == want wherever p holds"""
    if p is FALSE:
        return
    if same_val(R.an, v, want, p):
        report(Ob(name, where(e)))
    elif R.tainted(v, p):
        report(Ob(name, where(e), undecided=f"depends on calls outside of the analysis ({R.unknown_names()})"))
    else:
        report(Ob(name, where(e), detail=f"{note}reported {short(con_val(v, p))}, expected {short(con_val(want, p))}, when {short(p, 200)}"))


def missing(R, report, name, e, v, p, detail):
    if p is FALSE:
        return
    if R.tainted(v, p):
        report(Ob(name, where(e), undecided=f"depends on calls outside of the analysis ({R.unknown_names()})"))
    else:
        report(Ob(name, where(e), detail=detail))
