"""Models of message formatting: what is written, as literal text and formatted values."""
from .dd import *
from .values import *
from .models import M, on


def peel(c, v, ty):
    """The value behind references to sized values"""
    an = c.an
    for _ in range(6):
        if ty is None or an.ty[ty]["k"] != "ref":
            return v
        to = an.ty.pointee(ty)
        if to is None or an.ty[to]["k"] in ("slice", "str", "dyn"):
            return v
        try:
            v = an.read_lv(c.st, an.targets(v, to, c.st.p), to)
        except Exception:
            return v
        ty = to
    return v


@on("core::fmt::rt::Argument::<'_>::new_*", "core::fmt::rt::Argument::<'a>::new_*", "core::fmt::rt::Argument::new_*")
def _arg(c):
    return agg("fmtarg", (peel(c, c.args[0], c.at[0]),))


def behind(c, i):
    an = c.an
    to = an.ty.pointee(c.at[i])
    return con_val(an.read_lv(c.st, an.targets(c.args[i], to, c.st.p), to), c.st.p)


@on("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::new")
def _args(c):
    try:
        return agg("fmtargs", (behind(c, 0), behind(c, 1)))
    except Exception:
        return c.unknown()


@on("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _args_str(c):
    return agg("fmtargs", (c.args[0], UNIT))


def written(c, v):
    # writing works: what is written when it fails is of no interest
    r = en(ZERO, {0: (UNIT,)})
    c.an.event("fmt", c.name, (v,), c.st, c.n, res=r, callee=c.callee, extra=None)
    return r


@on("core::fmt::Formatter::<'a>::write_fmt", "core::fmt::Write::write_fmt", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt")
def _write_fmt(c):
    return written(c, c.args[1])


@on("core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad", "core::fmt::Write::write_str",
    "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str")
def _write_str(c):
    return written(c, agg("fmtargs", (c.args[1], UNIT)))


def _fmt(c):
    return written(c, agg("fmtarg", (peel(c, c.args[0], c.at[0]),)))


M.weak["core::fmt::Display::fmt"] = M.weak["core::fmt::Debug::fmt"] = _fmt


def pieces(v):
    """[(kind, value)] of a written value: ("text", str) and ("value", v); None if it is not understood"""
    if not isinstance(v, Agg):
        return None
    if v.tag == "fmtarg":
        return [("value", v.kids[0])]
    if v.tag != "fmtargs":
        return None
    t, a = v.kids
    if isinstance(t, T) and t.op == "str":
        return [("text", t.args[0])]
    if a is UNIT and not isinstance(t, Agg):
        return [("value", t)]
    if not isinstance(t, Agg) or not isinstance(a, Agg):
        return None
    bs = []
    for k in t.kids:
        if not isinstance(k, Poly) or not k.is_const():
            return None
        bs.append(k.const & 0xff)
    out, i, nxt = [], 0, 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("text", bytes(bs[i:i + n]).decode("utf-8", "replace")))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            out.append(("text", bytes(bs[i + 2:i + 2 + ln]).decode("utf-8", "replace")))
            i += 2 + ln
        else:
            idx = nxt
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            nxt = idx + 1
            if idx >= len(a.kids):
                return None
            x = a.kids[idx]
            out.append(("value", x.kids[0] if isinstance(x, Agg) and x.tag == "fmtarg" else x))
    return out

