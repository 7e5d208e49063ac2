"""Canonical gated values: interned terms, linear forms, and interval decision diagrams.

A value is a diagram whose inner nodes test a linear form against cut points and whose leaves are
plain values. Both are interned, so equal values are the same object.
"""
import sys
from sys import getrefcount
sys.setrecursionlimit(100000)

INF = float("inf")


class T:
    """An opaque term: an uninterpreted operation over other terms, with the type of its value."""
    __slots__ = ("op", "args", "ty", "id", "lo", "hi", "syms")

    def __repr__(self):
        return show(self)


class Poly:
    """Integer: sum of coef * product(atoms) + const. Atoms are T."""
    __slots__ = ("terms", "const", "id", "_b", "syms")

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.terms


class Node:
    __slots__ = ("var", "cuts", "kids", "id", "syms")

    def __repr__(self):
        return show(self)


class Leaf:
    """True / False / Undef markers."""
    __slots__ = ("name", "id", "syms")

    def __init__(self, name):
        self.name = name
        self.syms = frozenset()

    def __repr__(self):
        return self.name


_tab = {}
_next = [0]
NOSYMS = frozenset()


def _new(o):
    _next[0] += 1
    o.id = _next[0]
    return o


TRUE = _new(Leaf("true"))
FALSE = _new(Leaf("false"))
UNDEF = _new(Leaf("undef"))
RANGE_HOOK = [None]  # set by the engine: type index -> (lo, hi)


def syms_of(x):
    if isinstance(x, (T, Poly, Node)):
        return x.syms
    s = getattr(x, "syms", None)
    if s is not None:
        return s
    if isinstance(x, tuple):
        r = NOSYMS
        for y in x:
            s = syms_of(y)
            if s:
                r = r | s
        return r
    return NOSYMS


def key_of(x):
    if isinstance(x, tuple):
        return tuple(key_of(y) for y in x)
    i = getattr(x, "id", None)
    if i is not None:
        return ("#", i)
    return x


def term(op, *args, ty=None, lo=None, hi=None, sym=None):
    k = ("T", op, key_of(args), ty)
    o = _tab.get(k)
    if o is None:
        o = T()
        o.op, o.args, o.ty = op, args, ty
        if lo is None and ty is not None and RANGE_HOOK[0]:
            r = RANGE_HOOK[0](ty)
            if r:
                lo, hi = r
        o.lo = -INF if lo is None else lo
        o.hi = INF if hi is None else hi
        s = syms_of(args)
        if sym is not None:
            s = s | frozenset([sym])
        o.syms = s
        _tab[k] = _new(o)
    return o


def poly(terms, const=0):
    """terms: dict mono(tuple of T sorted by id) -> coef"""
    ts = tuple(sorted(((m, c) for m, c in terms.items() if c != 0), key=lambda mc: tuple(a.id for a in mc[0])))
    k = ("P", tuple((tuple(a.id for a in m), c) for m, c in ts), const)
    o = _tab.get(k)
    if o is None:
        o = Poly()
        o.terms, o.const, o._b = ts, const, None
        s = NOSYMS
        for m, _ in ts:
            for a in m:
                if a.syms:
                    s = s | a.syms
        o.syms = s
        _tab[k] = _new(o)
    return o


def num(n):
    return poly({}, int(n))


ZERO = num(0)
ONE = num(1)


def atom(t):
    return poly({(t,): 1}, 0)


def padd(a, b):
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, 0) + c
    return poly(d, a.const + b.const)


def pscale(a, k):
    return poly({m: c * k for m, c in a.terms}, a.const * k)


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    d = {}
    for m, c in a.terms + (((), a.const),):
        if c == 0:
            continue
        for m2, c2 in b.terms + (((), b.const),):
            if c2 == 0:
                continue
            mm = tuple(sorted(m + m2, key=lambda t: t.id))
            d[mm] = d.get(mm, 0) + c * c2
    const = d.pop((), 0)
    return poly(d, const)


def _mul_iv(a, b):
    vs = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                vs.append(0)
            else:
                vs.append(x * y)
    return (min(vs), max(vs))


def bounds(p):
    if p._b is None:
        lo = hi = p.const
        for m, c in p.terms:
            iv = (1, 1)
            for a in m:
                iv = _mul_iv(iv, (a.lo, a.hi))
            iv = _mul_iv(iv, (c, c))
            lo += iv[0]
            hi += iv[1]
        p._b = (lo, hi)
    return p._b


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def norm_var(d):
    """d (Poly, not constant) = g * v + c with v primitive, without constant, first coef > 0.
    Returns (v, g, c) with g possibly negative."""
    g = 0
    for _, c in d.terms:
        g = _gcd(g, c)
    if d.terms[0][1] < 0:
        g = -g
    v = poly({m: c // g for m, c in d.terms}, 0)
    return v, g, d.const


def node(var, cuts, kids):
    """Inner node; merges equal neighbours and removes cuts outside of the domain."""
    lo, hi = bounds(var)
    nc, nk = [], [None]
    # drop pieces outside of the domain
    pieces = []
    for i, k in enumerate(kids):
        a = -INF if i == 0 else cuts[i - 1]
        b = INF if i == len(cuts) else cuts[i] - 1
        if b < lo or a > hi:
            continue
        pieces.append((a, k))
    if not pieces:
        return kids[0]
    nk = [pieces[0][1]]
    for a, k in pieces[1:]:
        if k is nk[-1]:
            continue
        nc.append(a)
        nk.append(k)
    if len(nk) == 1:
        return nk[0]
    key = ("N", var.id, tuple(nc), tuple(k.id for k in nk))
    o = _tab.get(key)
    if o is None:
        o = Node()
        o.var, o.cuts, o.kids = var, tuple(nc), tuple(nk)
        s = var.syms
        for k in nk:
            if k.syms:
                s = s | k.syms
        o.syms = s
        _tab[key] = _new(o)
    return o


def _top(xs):
    v = None
    for x in xs:
        if isinstance(x, Node) and (v is None or x.var.id < v.id):
            v = x.var
    return v


def _split(xs, v):
    """Common refinement of the diagrams xs at variable v: (cuts, list of tuples of cofactors)."""
    cuts = sorted({c for x in xs if isinstance(x, Node) and x.var is v for c in x.cuts})
    rows = []
    for i in range(len(cuts) + 1):
        pt = cuts[0] - 1 if i == 0 else cuts[i - 1]
        row = []
        for x in xs:
            if isinstance(x, Node) and x.var is v:
                j = 0
                while j < len(x.cuts) and pt >= x.cuts[j]:
                    j += 1
                row.append(x.kids[j])
            else:
                row.append(x)
        rows.append(tuple(row))
    return cuts, rows


_memo = {}


def clear_caches():
    _memo.clear()


MEMO_LIMIT = 5000000


def sweep():
    """Forget results, and nodes that nobody refers to (parents are younger than their children)"""
    _memo.clear()
    for k in reversed(list(_tab)):
        if k[0] == "N" and getrefcount(_tab[k]) <= 2:
            del _tab[k]


def ite(p, a, b):
    """p: predicate diagram (TRUE/FALSE leaves)."""
    if p is TRUE:
        return a
    if p is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return p
    k = ("ite", p.id, a.id, b.id)
    r = _memo.get(k)
    if r is None:
        v = _top((p, a, b))
        cuts, rows = _split((p, a, b), v)
        r = node(v, cuts, [ite(*row) for row in rows])
        if len(_memo) > MEMO_LIMIT:
            sweep()
        _memo[k] = r
    return r


def p_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def p_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return ite(a, TRUE, b)


def p_not(a):
    return ite(a, FALSE, TRUE)


def p_implies(a, b):
    return p_and(a, p_not(b)) is FALSE


def test(var, lo, hi):
    """Predicate lo <= var <= hi (var: Poly, normalised here). lo/hi may be +-INF."""
    if var.is_const():
        return TRUE if lo <= var.const <= hi else FALSE
    v, g, c = norm_var(var)
    # g*v + c in [lo, hi]
    l, h = (lo - c, hi - c)
    if g < 0:
        l, h = -h, -l
        g = -g
    if l != -INF:
        l = -((-l) // g)
    if h != INF:
        h = h // g
    if l > h:
        return FALSE
    cuts, kids = [], []
    if l != -INF:
        cuts.append(l)
        kids.append(FALSE)
    kids.append(TRUE)
    if h != INF:
        cuts.append(h + 1)
        kids.append(FALSE)
    if not cuts:
        return TRUE
    return node(v, cuts, kids)


def le(a, b):  # plain polys
    return test(psub(a, b), -INF, 0)


def eq(a, b):
    return test(psub(a, b), 0, 0)


def case(var, cuts, kids):
    """Generic case split on a linear form; children may have any order."""
    r = kids[0]
    for c, k in zip(cuts, kids[1:]):
        r = ite(test(var, c, INF), k, r)
    return r


def map1(f, a, memo=None):
    """Apply f to the leaves; f may return diagrams."""
    if not isinstance(a, Node):
        return f(a)
    if memo is None:
        memo = {}
    r = memo.get(a.id)
    if r is None:
        kids = [map1(f, k, memo) for k in a.kids]
        if all(not isinstance(k, Node) or k.var.id > a.var.id for k in kids):
            r = node(a.var, a.cuts, kids)
        else:
            r = case(a.var, a.cuts, kids)
        memo[a.id] = r
    return r


def map2(f, a, b, memo=None):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return f(a, b)
    if memo is None:
        memo = {}
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        v = _top((a, b))
        cuts, rows = _split((a, b), v)
        kids = [map2(f, x, y, memo) for x, y in rows]
        if all(not isinstance(q, Node) or q.var.id > v.id for q in kids):
            r = node(v, cuts, kids)
        else:
            r = case(v, cuts, kids)
        memo[k] = r
    return r


def constrain(a, p):
    """Simplify a under the assumption p (values outside of p are irrelevant)."""
    if p is TRUE or not isinstance(a, Node):
        return a
    if p is FALSE:
        return a
    k = ("con", a.id, p.id)
    r = _memo.get(k)
    if r is None:
        v = _top((a, p))
        if isinstance(p, Node) and p.var is v and not (isinstance(a, Node) and a.var is v):
            # a does not depend on v: p may be weakened by or-ing its branches
            q = FALSE
            for x in p.kids:
                q = p_or(q, x)
            r = constrain(a, q)
        else:
            cuts, rows = _split((a, p), v)
            kids = [None if q is FALSE else constrain(x, q) for x, q in rows]
            # fill irrelevant children with a neighbour
            good = [x for x in kids if x is not None]
            if not good:
                r = a
            else:
                last = good[0]
                out = []
                for x in kids:
                    if x is not None:
                        last = x
                    out.append(last)
                r = node(v, cuts, out)
        _memo[k] = r
    return r


def exists(p, drop):
    """Existential quantification of the variables v with drop(v)."""
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            kids = [go(k) for k in x.kids]
            if drop(x.var):
                r = FALSE
                for k in kids:
                    r = p_or(r, k)
            else:
                r = case(x.var, x.cuts, kids)
            memo[x.id] = r
        return r
    return go(p)


def leaves(a, p=TRUE):
    """List of (leaf, guard) with guards disjoint; guard conjoined with p and not FALSE."""
    out = {}
    order = []

    def go(x, g):
        if g is FALSE:
            return
        if not isinstance(x, Node):
            if x.id in out:
                out[x.id] = (x, p_or(out[x.id][1], g))
            else:
                out[x.id] = (x, g)
                order.append(x.id)
            return
        lo = -INF
        for i, k in enumerate(x.kids):
            hi = x.cuts[i] - 1 if i < len(x.cuts) else INF
            go(k, p_and(g, test(x.var, lo, hi)))
            lo = hi + 1
    go(a, p)
    return [out[i] for i in order]


def cubes(p, limit=20000):
    """Paths of a predicate diagram to TRUE as lists of (var, lo, hi)."""
    out = []

    def go(x, acc):
        if x is FALSE or len(out) >= limit:
            return
        if x is TRUE:
            out.append(list(acc))
            return
        lo = -INF
        for i, k in enumerate(x.kids):
            hi = x.cuts[i] - 1 if i < len(x.cuts) else INF
            acc.append((x.var, lo, hi))
            go(k, acc)
            acc.pop()
            lo = hi + 1
    go(p, [])
    return out


def support(p, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(p, Node) and p.id not in seen:
        seen.add(p.id)
        acc[p.var.id] = p.var
        for k in p.kids:
            support(k, acc, seen)
    return list(acc.values())


# ---------------------------------------------------------------- printing
def show(x, depth=0):
    if depth > 14:
        return "…"
    if isinstance(x, T):
        if x.op == "str":
            return repr(x.args[0])
        if x.op == "fld":
            return f"{show(x.args[0], depth + 1)}.{x.args[2] if len(x.args) > 2 else x.args[1]}"
        if x.op == "deref":
            return f"*{show(x.args[0], depth + 1)}"
        if x.op == "elem":
            return f"{show(x.args[0], depth + 1)}[{show(x.args[1], depth + 1)}]"
        if x.op == "sym":
            return str(x.args[0])
        if x.op == "mu":
            return f"µ{x.args[0]}:{x.args[2]}"
        if x.op == "ev":
            return f"ev{x.args[0]}.{x.args[2]}"
        return f"{x.op}({', '.join(show(a, depth + 1) for a in x.args)})"
    if isinstance(x, Poly):
        ps = []
        for m, c in x.terms:
            s = "*".join(show(a, depth + 1) for a in m)
            ps.append(s if c == 1 else f"-{s}" if c == -1 else f"{c}*{s}")
        if x.const or not ps:
            ps.append(str(x.const))
        return "+".join(ps).replace("+-", "-")
    if isinstance(x, Node):
        ps = []
        lo = None
        for i, k in enumerate(x.kids):
            hi = x.cuts[i] - 1 if i < len(x.cuts) else None
            if k is not FALSE:
                if lo == hi and lo is not None:
                    r = f"={lo}"
                elif lo is None:
                    r = f"<={hi}"
                elif hi is None:
                    r = f">={lo}"
                else:
                    r = f"in {lo}..{hi}"
                ps.append(f"{r}: {show(k, depth + 1)}")
            lo = None if hi is None else hi + 1
        return f"[{show(x.var, depth + 1)} {'; '.join(ps)}]"
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, depth + 1) for y in x) + ")"
    return str(x)
