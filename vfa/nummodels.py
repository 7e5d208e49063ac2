"""Models of the integer, boolean and string methods of the standard library (exact where the domain allows it)."""
import re
from .dd import *
from .values import *
from .models import M, on, option, bool_, str_eq

INT = re.compile(r"^(?:core|std)::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$")


def imin(an, a, b):
    return ite(an.ile(a, b), a, b)


def imax(an, a, b):
    return ite(an.ile(a, b), b, a)


def inside(v, lo, hi):
    return map1(lambda x: FALSE if x is UNDEF else test(x, lo, hi), v)


def wrapped(an, v, ty):
    """v modulo the width of ty"""
    lo, hi = an.ty.range(ty)
    w = hi - lo + 1

    def f(x):
        if x is UNDEF:
            return x
        l, h = bounds(x)
        if l >= lo and h <= hi:
            return x
        if x.is_const():
            return num((x.const - lo) % w + lo)
        r = atom(term("trunc", x, ty, lo=lo, hi=hi))
        if l >= lo - w and h <= hi + w:
            r = x
            if l < lo:
                r = ite(test(x, -INF, lo - 1), padd(x, num(w)), r)
            if h > hi:
                r = ite(test(x, hi + 1, INF), psub(x, num(w)), r)
            return r
        return ite(test(x, lo, hi), x, r)
    return map1(f, v)


def clamped(an, v, ty):
    lo, hi = an.ty.range(ty)
    return map1(lambda x: x if x is UNDEF else ite(test(x, -INF, lo - 1), num(lo), ite(test(x, hi + 1, INF), num(hi), x)), v)


def pos(v):
    return inside(v, 0, INF)


def neg_(an, v):
    return an.isub(ZERO, v)


def absolute(an, v):
    return ite(pos(v), v, neg_(an, v))


def euclid(an, a, b, ty):
    """(quotient, remainder) of a Euclidean division by b != 0"""
    q, r = an.binop("Div", a, b, ty), an.binop("Rem", a, b, ty)
    down = inside(r, -INF, -1)
    bp = pos(b)
    return (ite(down, ite(bp, an.isub(q, ONE), an.iadd(q, ONE)), q), ite(down, ite(bp, an.iadd(r, b), an.isub(r, b)), r))


class P:
    def __init__(self, c, ty):
        self.c, self.an, self.ty = c, c.an, ty
        self.lo, self.hi = c.an.ty.range(ty)

    def ok(self, v):
        return inside(v, self.lo, self.hi)

    def panic(self, p):
        """the call returns only if p holds"""
        self.c.st.p = p_and(self.c.st.p, p)


OPS = {"add": "iadd", "sub": "isub", "mul": "imul"}


def num_method(c, f, a):
    an = c.an
    if not a or not all(is_scalar(x) for x in a):
        return None
    ty = c.at[0]
    if an.ty[ty]["k"] != "int":
        return None
    P_ = P(c, ty)
    m = re.match(r"^(wrapping|saturating|checked|overflowing|unchecked|strict)_(add|sub|mul|neg|abs|div|rem|div_euclid|rem_euclid)(_unsigned|_signed)?$", f)
    if m:
        how, op = m.group(1), m.group(2)
        okp = TRUE
        if op in OPS:
            r = getattr(an, OPS[op])(a[0], a[1])
        elif op == "neg":
            r = neg_(an, a[0])
        elif op == "abs":
            r = absolute(an, a[0])
        else:
            okp = p_not(an.ieq(a[1], ZERO))
            if op in ("div", "rem"):
                r = an.binop("Div" if op == "div" else "Rem", a[0], a[1], ty)
            else:
                r = euclid(an, a[0], a[1], ty)[0 if op == "div_euclid" else 1]
        if how == "checked":
            return option(p_and(okp, P_.ok(r)), r)
        if okp is not TRUE:
            P_.panic(okp)
        if how == "wrapping" or how == "unchecked":
            return wrapped(an, r, ty)
        if how == "saturating":
            return clamped(an, r, ty)
        if how == "strict":
            P_.panic(P_.ok(r))
            return r
        return agg("tuple", (wrapped(an, r, ty), bool_(p_not(P_.ok(r)))))
    if f in ("div_euclid", "rem_euclid"):
        P_.panic(p_not(an.ieq(a[1], ZERO)))
        return euclid(an, a[0], a[1], ty)[0 if f == "div_euclid" else 1]
    if f == "abs":
        r = absolute(an, a[0])
        P_.panic(P_.ok(r))
        return r
    if f == "unsigned_abs":
        return absolute(an, a[0])
    if f == "abs_diff":
        return ite(an.ile(a[1], a[0]), an.isub(a[0], a[1]), an.isub(a[1], a[0]))
    if f == "signum":
        return ite(inside(a[0], 1, INF), ONE, ite(inside(a[0], 0, 0), ZERO, num(-1)))
    if f == "is_negative":
        return bool_(inside(a[0], -INF, -1))
    if f == "is_positive":
        return bool_(inside(a[0], 1, INF))
    if f == "div_ceil" and self_unsigned(an, ty):
        P_.panic(p_not(an.ieq(a[1], ZERO)))
        return an.binop("Div", an.isub(an.iadd(a[0], a[1]), ONE), a[1], ty)
    if f == "is_multiple_of" and self_unsigned(an, ty):
        return bool_(ite(an.ieq(a[1], ZERO), an.ieq(a[0], ZERO), an.ieq(an.binop("Rem", a[0], a[1], ty), ZERO)))
    if f == "pow" and isinstance(a[1], Poly) and a[1].is_const() and 0 <= a[1].const <= 4:
        r = ONE
        for _ in range(a[1].const):
            r = an.imul(r, a[0])
        P_.panic(P_.ok(r))
        return r
    if f in ("to_be", "to_le", "from_be", "from_le", "swap_bytes", "reverse_bits", "count_ones", "count_zeros", "leading_zeros", "trailing_zeros",
             "ilog2", "isqrt", "rotate_left", "rotate_right", "next_power_of_two", "is_power_of_two", "pow", "midpoint",
             "to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        return an.mk(term("num_" + f, *a, ty=c.dty), c.dty)
    return None


def self_unsigned(an, ty):
    return an.ty.range(ty)[0] == 0


class NumLookup:
    def __call__(self, c):
        m = INT.match(c.name) or INT.match(c.path or "")
        a = [con_val(x, c.st.p) for x in c.args]
        r = num_method(c, m.group(2), a)
        if r is None:
            return c.unknown()
        return r


NUM = NumLookup()
NAMES = re.compile(r"^(wrapping|saturating|checked|overflowing|unchecked|strict)_(add|sub|mul|neg|abs|div|rem|div_euclid|rem_euclid)$|"
                   r"^(div_euclid|rem_euclid|abs|unsigned_abs|abs_diff|signum|is_negative|is_positive|div_ceil|is_multiple_of|pow|to_be|to_le|swap_bytes|"
                   r"reverse_bits|count_ones|count_zeros|leading_zeros|trailing_zeros|ilog2|isqrt|rotate_left|rotate_right|next_power_of_two|is_power_of_two|midpoint|"
                   r"to_be_bytes|to_le_bytes|to_ne_bytes)$")

_old = M.lookup


def lookup(callee):
    r = _old(callee)
    if r is None and callee is not None:
        for k in ("rpath", "path"):
            m = INT.match(callee.get(k) or "")
            if m and NAMES.match(m.group(2)):
                return NUM
    return r


M.lookup = lookup


@on("core::intrinsics::integer_max", "core::cmp::impls::<impl core::cmp::Ord for *")
def _int_max(c):
    f = c.name.rsplit("::", 1)[1]
    a = [con_val(x, c.st.p) for x in c.args]
    if not all(is_scalar(x) for x in a):
        return c.unknown()
    if f in ("integer_max", "max"):
        return imax(c.an, *a)
    if f == "min":
        return imin(c.an, *a)
    if f == "clamp":
        c.st.p = p_and(c.st.p, c.an.ile(a[1], a[2]))
        return imin(c.an, imax(c.an, a[0], a[1]), a[2])
    return c.unknown()


@on("core::intrinsics::integer_min")
def _int_min(c):
    a = [con_val(x, c.st.p) for x in c.args]
    return imin(c.an, *a)


@on("core::str::<impl str>::is_empty")
def _str_is_empty(c):
    return bool_(str_eq(c.args[0], term("str", "")))


@on("alloc::string::String::is_empty")
def _string_is_empty(c):
    v, pty = c.read_arg(0)
    return bool_(map1(lambda x: FALSE if x is UNDEF else str_eq(term("str_of", x, ty=str_ref(c)), term("str", "")), v))


def str_ref(c):
    return next((i for n, i in c.an.ty.by_str.items() if re.match(r"^&('\\S+ )?str$", n)), None)


def strlen(x):
    if x is UNDEF:
        return x
    if isinstance(x, T) and x.op == "str":
        return num(len(x.args[0].encode()))
    return atom(term("strlen", x, lo=0, hi=(1 << 63) - 1))


@on("core::str::<impl str>::len")
def _str_len(c):
    return map1(strlen, c.args[0])


@on("alloc::string::String::len")
def _string_len(c):
    v, pty = c.read_arg(0)
    return map1(lambda x: x if x is UNDEF else strlen(term("str_of", x, ty=str_ref(c))), v)


# ---------------------------------------------------------------- string predicates: opaque functions of their arguments
def str_pred(name):
    def f(c):
        a, b = c.args[:2]
        if not (is_scalar(a) and is_scalar(b)):
            return c.unknown()

        def g(x, y):
            if x is UNDEF or y is UNDEF:
                return FALSE
            if isinstance(x, T) and isinstance(y, T) and x.op == "str" and y.op == "str":
                p, q = x.args[0], y.args[0]
                r = {"starts_with": p.startswith(q), "ends_with": p.endswith(q), "contains": q in p,
                     "eq_ignore_ascii_case": p.lower() == q.lower()}[name]
                return TRUE if r else FALSE
            return test(atom(term("strpred", name, x, y, lo=0, hi=1)), 1, 1)
        return bool_(map2(g, a, b))
    return f


for _n in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
    on(f"core::str::<impl str>::{_n}")(str_pred(_n))
