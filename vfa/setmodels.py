"""Models of ordered and hashed sets of numbers.

A set is setnew or setput(set, value); member(set, value) and hasin(set, low, high) are uninterpreted numbers 0..1.
A range of a set and the sorted vector that is collected from it are setrange and sorted(set, low, high).
"""
from .models import *
from .models import M, on, option, bool_
from .iomodels import lift

LO, HI = num(-(1 << 63)), num((1 << 63) - 1)


def holds(op, *a):
    return test(atom(term(op, *a, lo=0, hi=1)), 1, 1)


def scalar(*vs):
    return all(is_scalar(v) for v in vs)


def whole(l):
    return isinstance(l, Poly)


@on("alloc::collections::btree::set::BTreeSet::<T>::new", "std::collections::hash::set::HashSet::<T>::new",
    "<alloc::collections::btree::set::BTreeSet<T> as core::default::Default>::default", "<std::collections::hash::set::HashSet<T, S> as core::default::Default>::default")
def _new(c):
    return term("setnew", ty=c.dty)


SETS = ("alloc::collections::btree::set::BTreeSet::<T, A>::", "std::collections::hash::set::HashSet::<T, S>::", "std::collections::hash::set::HashSet::<T, S, A>::")


def method(*names):
    return on(*[s + n for s in SETS for n in names])


def has(S, v):
    """v is an element of the set"""
    return lift(lambda s, x: holds("member", s, x), S, v)


def number(c, i):
    """The number that argument i is or refers to"""
    v = c.args[i]
    if c.an.ty[c.at[i]]["k"] in ("ref", "ptr"):
        v, _ = c.read_arg(i)
    return v if is_scalar(v) and all(l is UNDEF or whole(l) for l, _ in leaves(v)) else None


@method("insert")
def _insert(c):
    S, pty = c.read_arg(0)
    v = number(c, 1)
    if not is_scalar(S) or v is None:
        return c.unknown()
    c.write_arg(0, lift(lambda s, x: term("setput", s, x, ty=pty), S, con_val(v, c.st.p)))
    return bool_(p_not(has(S, v)))


@method("remove", "take")
def _remove(c):
    S, pty = c.read_arg(0)
    v = number(c, 1)
    if not is_scalar(S) or v is None:
        return c.unknown()
    p = con_val(has(S, v), c.st.p)
    c.write_arg(0, lift(lambda s, x: term("setdel", s, x, ty=pty), S, con_val(v, c.st.p)))
    return bool_(p) if c.name.endswith("remove") else option(p, v)


@method("pop_first", "pop_last")
def _pop(c):
    S, pty = c.read_arg(0)
    r = c.fresh()
    if not is_scalar(S):
        return c.unknown()
    v = c.an.get_field(r, c.dty, 1, 0)
    c.write_arg(0, lift(lambda s, x: term("setdel", s, x, ty=pty), S, v))
    return option(con_val(lift(lambda s: holds("hasin", s, LO, HI), S), c.st.p), v)


@method("clear")
def _clear(c):
    _, pty = c.arg_target(0)
    c.write_arg(0, term("setnew", ty=pty))
    return UNIT


@method("contains")
def _contains(c):
    S, _ = c.read_arg(0)
    v = number(c, 1)
    if not is_scalar(S) or v is None:
        return c.unknown()
    return bool_(con_val(has(S, v), c.st.p))


@method("is_empty")
def _empty(c):
    S, _ = c.read_arg(0)
    if not is_scalar(S):
        return c.unknown()
    return bool_(p_not(lift(lambda s: holds("hasin", s, LO, HI), S)))


def bounds(c, i):
    """Lowest and highest number of a range"""
    an, v, ty = c.an, c.args[i], c.at[i]
    if an.ty[ty]["k"] != "adt":
        return None
    p, f = an.ty[ty]["path"].split("::")[-1], lambda j: an.get_field(v, ty, None, j)
    if p == "RangeInclusive":
        return f(0), an.isub(f(1), f(2))
    if p == "Range":
        return f(0), an.isub(f(1), ONE)
    if p == "RangeFrom":
        return f(0), HI
    if p == "RangeTo":
        return LO, an.isub(f(0), ONE)
    if p == "RangeToInclusive":
        return LO, f(0)
    if p == "RangeFull":
        return LO, HI
    return None


@method("range")
def _range(c):
    S, _ = c.read_arg(0)
    b = bounds(c, 1)
    if not is_scalar(S) or b is None or not scalar(*b):
        return c.unknown()
    return con_val(lift(lambda s, x, y: term("setrange", s, x, y, ty=c.dty) if whole(x) and whole(y) else UNDEF, S, *b), c.st.p)


@method("iter")
def _iter(c):
    S, _ = c.read_arg(0)
    if not is_scalar(S):
        return c.unknown()
    return lift(lambda s: term("setrange", s, LO, HI, ty=c.dty), S)


def ranges(v):
    return is_scalar(v) and all(l is UNDEF or isinstance(l, T) and l.op == "setrange" for l, _ in leaves(v))


@on("<alloc::collections::btree::set::Range<'a, T> as core::iter::traits::iterator::Iterator>::next", "<alloc::collections::btree::set::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
    "<std::collections::hash::set::Iter<'a, K> as core::iter::traits::iterator::Iterator>::next")
def _next(c):
    v, pty = c.read_arg(0)
    if not ranges(v):
        return c.unknown()
    r = c.fresh()
    c.write_arg(0, c.fresh(pty, "rest"))
    from .engine import Imprecise
    try:
        some = c.an.get_field(r, c.dty, 1, 0)
    except Imprecise:
        return c.unknown()
    return option(con_val(lift(lambda t: holds("hasin", *t.args[:3]), v), c.st.p), some)


def find_range(v):
    if isinstance(v, Agg) and len(v.kids) == 1:
        return find_range(v.kids[0])
    return v if not isinstance(v, Agg) and ranges(v) else None


@on("<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter")
def _collect(c):
    v = find_range(c.args[0])
    if v is None:
        return c.unknown()
    return lift(lambda t: term("sorted", *t.args[:3], ty=c.dty), v)


def lookup(c, i):
    """Does the sorted slice hold the number of argument i?"""
    an = c.an
    pty = an.ty.pointee(c.at[0])
    ref, start, ln = c.slice_arg(0)
    S = None
    for g, pl in an.targets(ref, pty, c.st.p):
        x = an.read(c.st, pl)
        S = x if S is None else an.merge(g, x, S)
    v = number(c, i)
    if S is None or v is None or start is not ZERO or not is_scalar(S):
        return None
    ls = [l for l, _ in leaves(con_val(S, c.st.p)) if l is not UNDEF]
    if not all(isinstance(l, T) and l.op == "sorted" for l in ls):
        return None
    return con_val(lift(lambda t, x: holds("member", t, x), S, v), c.st.p)


@on("core::slice::<impl [T]>::binary_search")
def _search(c):
    p = lookup(c, 1)
    if p is None:
        return c.unknown()
    r = c.fresh()
    return en(ite(p, ZERO, ONE), {0: (c.an.get_field(r, c.dty, 0, 0),), 1: (c.an.get_field(r, c.dty, 1, 0),)})


@on("core::slice::<impl [T]>::contains")
def _slice_contains(c):
    p = lookup(c, 1)
    return c.unknown() if p is None else bool_(p)


@on("clients::idx::accept")
def _accept(c):
    """The filter's answer about a way: that of the stored way which the argument refers to"""
    an = c.an
    v, pty = c.read_arg(0)
    for i, (n, ft) in enumerate(an.ty.fields(pty)):
        to = an.ty[ft].get("to") if an.ty[ft]["k"] == "ref" else None
        if to is not None and an.ty[to]["k"] == "adt" and an.ty[to]["path"].endswith("osmformat::Way"):
            x = con_val(an.read_lv(c.st, an.targets(an.get_field(v, pty, None, i), to, c.st.p), to), c.st.p)
            if is_scalar(x):
                return bool_(lift(lambda t: holds("accepted", t), x))
    return c.unknown()
