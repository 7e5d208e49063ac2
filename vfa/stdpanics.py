"""Preconditions of std functions whose effect is not modelled: the call panics unless they hold."""
from .models import *
from .models import on, vec_fat, range_of, bool_, M
from .engine import Imprecise
from .facts import terms_in
from .nummodels import strlen, str_ref
from .iomodels import lift

BIG = 1 << 63


def panic_if(c, what, p):
    """The call panics if p; what follows is the other case"""
    p = con_val(p, c.st.p)
    c.an.event("panicif", what, (p,), c.st, c.n, callee=c.callee)
    c.st.p = p_and(c.st.p, p_not(p))


def negative(x):
    return map1(lambda v: FALSE if v is UNDEF else test(v, -INF, -1), x)


def beyond(an, x, ln):
    """x is no index up to ln (inclusive)"""
    return p_or(negative(x), p_not(an.ile(x, ln)))


def seq_len(c, i=0):
    an = c.an
    pty = an.ty.pointee(c.at[i])
    if an.ty[pty]["k"] == "slice":
        return c.slice_arg(i)[2]
    return vec_fat(c, i).kids[2]


def sl(*names):
    return on(*["core::slice::<impl [T]>::" + n for n in names])


def ve(*names):
    return on(*["alloc::vec::Vec::<T, A>::" + n for n in names])


def guarded(what, p):
    def f(c):
        try:
            q = p(c)
        except Imprecise:
            q = None
        if q is not None:
            panic_if(c, what, q)
            if c.st.p is FALSE:
                return None
        return c.unknown()
    return f


sl("copy_from_slice", "clone_from_slice", "swap_with_slice")(guarded("lengths differ", lambda c: p_not(c.an.ieq(seq_len(c), seq_len(c, 1)))))
sl("windows", "chunks_exact", "rchunks", "chunks_mut", "chunks_exact_mut", "rchunks_exact", "rchunks_mut")(
    guarded("size is zero", lambda c: map1(lambda x: FALSE if x is UNDEF else test(x, 0, 0), c.args[1])))
sl("split_at_mut", "rotate_left", "rotate_right")(guarded("index out of range", lambda c: beyond(c.an, c.args[1], seq_len(c))))
sl("swap")(guarded("index out of range", lambda c: p_or(beyond(c.an, c.an.iadd(c.args[1], ONE), seq_len(c)), beyond(c.an, c.an.iadd(c.args[2], ONE), seq_len(c)))))
ve("remove", "swap_remove")(guarded("index out of range", lambda c: p_or(negative(c.args[1]), beyond(c.an, c.an.iadd(c.args[1], ONE), seq_len(c)))))
ve("insert", "split_off")(guarded("index out of range", lambda c: beyond(c.an, c.args[1], seq_len(c))))


def bad_range(c, v, ty, ln):
    r = range_of(c, v, ty, ln)
    if r is None:
        return None
    return p_or(negative(r[0]), p_or(p_not(c.an.ile(r[0], r[1])), p_not(c.an.ile(r[1], ln))))


ve("drain")(guarded("range out of bounds", lambda c: bad_range(c, c.args[1], c.at[1], seq_len(c))))
sl("copy_within")(guarded("range out of bounds", lambda c: bad_range(c, c.args[1], c.at[1], seq_len(c))))


def capacity(i):
    """More bytes than any object can have, whatever the elements are (unless they have no size)"""
    return lambda c: map1(lambda x: FALSE if x is UNDEF else p_not(test(x, 0, BIG - 1)), c.args[i])


ve("reserve", "reserve_exact")(guarded("capacity overflow", capacity(1)))
on("alloc::vec::from_elem")(guarded("capacity overflow", capacity(1)))
on("alloc::string::String::with_capacity")(guarded("capacity overflow", capacity(0)))
ve("with_capacity_in")(guarded("capacity overflow", capacity(0)))
on(*[f"core::num::<impl {t}>::{n}" for t in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize") for n in ("rem_euclid", "div_euclid", "div_ceil", "next_multiple_of", "is_multiple_of_")])(
    guarded("division by zero", lambda c: map1(lambda x: FALSE if x is UNDEF else test(x, 0, 0), c.args[1])))


# ---------------------------------------------------------------- strings: ends of a part are boundaries of characters
def boundary(s, i):
    return lift(lambda x, j: TRUE if isinstance(j, Poly) and (j is ZERO or j is strlen(x)) else
                p_and(test(j, 0, INF), p_and(test(psub(j, strlen(x)), -INF, 0), test(atom(term("boundary", x, j, lo=0, hi=1)), 1, 1))), s, i)


@on("core::str::<impl str>::is_char_boundary")
def _is_boundary(c):
    return bool_(boundary(c.args[0], c.args[1]))


def text(c):
    if "alloc::string::String" in c.name:
        v, _ = c.read_arg(0)
        return map1(lambda x: x if x is UNDEF else term("str_of", x, ty=str_ref(c)), v)
    return c.args[0]


def examined(c, s):
    """Is more known of the text than its length, and that it is none of the constants it was compared with?"""
    ls = {l for l, _ in leaves(s)}
    return any(t.op not in ("strlen", "boundary", "strkey") and any(a in ls for a in t.args if isinstance(a, T)) for t in terms_in(c.st.p))


def other(s):
    """The text is none of the constants in the source"""
    return map1(lambda x: FALSE if x is UNDEF or x.op == "str" else test(atom(term("strkey", x, lo=0, hi=1 << 62)), 1 << 61, 1 << 62), s)


def str_range(c):
    s = text(c)
    if not is_scalar(s) or examined(c, s):
        return None
    r = range_of(c, c.args[1], c.at[1], map1(strlen, s))
    if r is None:
        return None
    a, b = r
    return p_and(other(s), p_not(p_and(c.an.ile(a, b), p_and(boundary(s, a), boundary(s, b)))))


on("core::str::traits::<impl core::ops::index::Index<I> for str>::index", "<alloc::string::String as core::ops::index::Index<I>>::index")(guarded("no boundary of a character", str_range))
on("core::str::<impl str>::split_at")(guarded("no boundary of a character", lambda c: None if examined(c, c.args[0]) else p_and(other(c.args[0]), p_not(boundary(c.args[0], c.args[1])))))
