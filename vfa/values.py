"""Structured values on top of the diagrams: aggregates, enums, references."""
from .dd import *
from .dd import _new, _tab


class Agg:
    """Struct, tuple, closure, array, or a modelled library type (tag)."""
    __slots__ = ("tag", "kids", "id", "syms")

    def __repr__(self):
        return f"{self.tag}{{{', '.join(map(repr, self.kids))}}}"


class En:
    """Enum: diagram over variant indices and the payload of each possible variant."""
    __slots__ = ("d", "vs", "id", "syms")

    def payload(self, vi):
        for v, kids in self.vs:
            if v == vi:
                return kids
        return None

    def __repr__(self):
        return f"enum<{self.d!r}; " + "; ".join(f"{v}:({', '.join(map(repr, k))})" for v, k in self.vs) + ">"


class Place:
    __slots__ = ("root", "path", "id", "syms")

    def __repr__(self):
        r = self.root
        s = f"{r[0]}:{r[1]!r}" if len(r) == 2 else ":".join(map(str, r))
        for e in self.path:
            s += f"[{e[1]!r}]" if e[0] == "e" else f".{'' if e[1] is None else str(e[1]) + '/'}{e[2]}"
        return s


class RefV:
    __slots__ = ("place", "id", "syms")

    def __repr__(self):
        return "&" + repr(self.place)


class FnV:
    __slots__ = ("callee", "name", "id", "syms")

    def __repr__(self):
        return f"fn:{self.name}"


def agg(tag, kids):
    kids = tuple(kids)
    k = ("A", tag, tuple(x.id for x in kids))
    o = _tab.get(k)
    if o is None:
        o = Agg()
        o.tag, o.kids = tag, kids
        o.syms = syms_of(kids)
        _tab[k] = _new(o)
    return o


def en(d, vs):
    vs = tuple(sorted(vs.items())) if isinstance(vs, dict) else tuple(vs)
    k = ("E", d.id, tuple((v, tuple(x.id for x in kids)) for v, kids in vs))
    o = _tab.get(k)
    if o is None:
        o = En()
        o.d, o.vs = d, vs
        s = d.syms
        for _, kids in vs:
            s = s | syms_of(kids)
        o.syms = s
        _tab[k] = _new(o)
    return o


def place(root, path=()):
    k = ("PL", key_of(root), key_of(path))
    o = _tab.get(k)
    if o is None:
        o = Place()
        o.root, o.path = root, path
        o.syms = syms_of(root) | syms_of(path)
        _tab[k] = _new(o)
    return o


def refv(pl):
    k = ("R", pl.id)
    o = _tab.get(k)
    if o is None:
        o = RefV()
        o.place = pl
        o.syms = pl.syms
        _tab[k] = _new(o)
    return o


def fnv(callee, name):
    k = ("F", name, callee.get("key"))
    o = _tab.get(k)
    if o is None:
        o = FnV()
        o.callee, o.name, o.syms = callee, name, NOSYMS
        _tab[k] = _new(o)
    return o


UNIT = agg("tuple", ())
BT = ONE
BF = ZERO


def is_scalar(v):
    return not isinstance(v, (Agg, En))


def to_pred(v):
    """Boolean value (leaves 0/1 or opaque) -> predicate."""
    def f(x):
        if isinstance(x, Poly):
            if x.is_const():
                return TRUE if x.const else FALSE
            return test(x, 1, INF)
        if x is UNDEF:
            return FALSE
        raise ValueError(f"not a boolean: {x!r}")
    return map1(f, v)


def from_pred(p):
    return map1(lambda x: ONE if x is TRUE else ZERO, p)


def con_val(v, p):
    """constrain for structured values"""
    if p is TRUE:
        return v
    if isinstance(v, Agg):
        kids = [con_val(x, p) for x in v.kids]
        if all(a is b for a, b in zip(kids, v.kids)):
            return v
        return agg(v.tag, kids)
    if isinstance(v, En):
        d = constrain(v.d, p)
        vs = {}
        poss = possible(d, v, p)
        for vi, kids in v.vs:
            if poss is None or vi in poss:
                vs[vi] = tuple(con_val(x, p) for x in kids)
        return en(d, vs)
    return constrain(v, p)


def possible(d, v, p):
    """Set of variants the discriminant can take under p, or None."""
    r = set()
    for l, g in leaves(d, p):
        if isinstance(l, Poly) and l.is_const():
            r.add(l.const)
        elif l is UNDEF:
            pass
        else:
            for vi, _ in v.vs:
                if isinstance(l, Poly):
                    if p_and(g, test(l, vi, vi)) is not FALSE:
                        r.add(vi)
                else:
                    r.add(vi)
    return r
