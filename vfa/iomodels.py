"""Models of sources: reading, seeking, limits, decompression, parsing of messages, I/O errors, files and memory maps.

A source is (handle, position). What a read of n bytes at a position does is a function of (handle, position, n):
rd(h, p, n) is 0 (all bytes), 1 (the end comes first) or 2 (an error); the bytes, the parsed message, the error and
so on are functions of the same arguments. A failed operation leaves the position at an unspecified value."""
import os
from .dd import *
from .values import *
from .models import M, on, option, bool_, slice_value

U64 = (1 << 64) - 1
SOURCES = ("clients::io::Src", "std::fs::File", "std::io::buffered::bufreader::BufReader", "alloc::io::buffered::bufreader::BufReader")
TAKE = ("core::io::util::Take", "std::io::Take", "std::io::util::Take")
IOERR = ("core::io::error::Error", "std::io::error::Error", "std::io::Error")
ZLIB = "flate2::zlib::read::ZlibDecoder"


def lift(f, *vs):
    """f over all combinations of leaves; UNDEF is absorbing"""
    def go(acc, rest):
        if not rest:
            return f(*acc)
        return map1(lambda x: UNDEF if x is UNDEF else go(acc + (x,), rest[1:]), rest[0])
    return go((), vs)


def mk_src(h, pos):
    return agg("src", (h, pos))


# ---- modelled types
_expand, _kid_types = M.expand, M.kid_types


def is_source(an, ty):
    return ty is not None and an.ty[ty]["k"] == "adt" and an.ty[ty]["path"] in SOURCES


def expand(an, v, ty):
    k = an.ty[ty]
    if k["k"] == "adt":
        p = k["path"]
        if p in SOURCES:
            return mk_src(v, map1(lambda x: x if x is UNDEF else atom(term("pos0", x, lo=0, hi=U64)), v))
        if p in IOERR:
            return io_error(map1(lambda x: x if x is UNDEF else atom(term("iokind", x, lo=0, hi=63)), v), v)
    return _expand(an, v, ty)


def kid_types(an, b, ty):
    if b.tag == "src":
        return [None, ("len",)]
    if b.tag == "take":
        return [None, ("len",)]
    if b.tag == "ioerror":
        return [None, None]
    return _kid_types(an, b, ty)


M.expand, M.kid_types = expand, kid_types


# ---- readers
class Reader:
    """What a reference to something readable designates: a source, and the limits around it."""

    def __init__(self, c, lv):
        self.c, self.an, self.lv = c, c.an, lv
        an = c.an
        if len(lv) != 1:
            raise ValueError("several readers")
        pl = lv[0][1]
        self.ty = an.path_ty(an.root_type(pl.root), pl.path) if an.root_type(pl.root) is not None else None
        v = con_val(an.read(c.st, pl), c.st.p)
        if not isinstance(v, Agg) and self.ty is not None:
            t = an.ty[self.ty]
            if t["k"] in ("ref", "ptr"):
                self.inner = Reader(c, an.targets(v, t["to"], c.st.p))
                self.kind = "ref"
                return
            v = an.expand(v, self.ty)
        if isinstance(v, Agg) and v.tag == "src":
            self.kind, (self.h, self.pos) = "src", v.kids
        elif isinstance(v, Agg) and v.tag == "take":
            self.kind, self.limit = "take", v.kids[1]
            self.inner = Reader(c, [(TRUE, place(pl.root, pl.path + (("m", None, 0),)))]) if False else self.sub(v)
        else:
            raise ValueError(f"reader {v!r}")

    def sub(self, v):
        x = v.kids[0]
        if isinstance(x, Agg) and x.tag in ("src", "take"):
            r = object.__new__(Reader)
            r.c, r.an, r.lv, r.ty = self.c, self.an, None, None
            if x.tag == "src":
                r.kind, (r.h, r.pos) = "src", x.kids
            else:
                r.kind, r.limit = "take", x.kids[1]
                r.inner = r.sub(x)
            return r
        return Reader(self.c, self.an.targets(x, None, self.c.st.p))

    def source(self):
        return self if self.kind == "src" else self.inner.source()

    def limits(self):
        r = [] if self.kind != "take" else [self]
        return r if self.kind == "src" else r + self.inner.limits()

    def value(self):
        if self.kind == "src":
            return mk_src(self.h, self.pos)
        if self.kind == "take":
            return agg("take", (self.inner.value() if self.inner.lv is None else self.c.an.ref_to(self.inner.lv), self.limit))
        return None

    def store(self):
        if self.kind == "ref":
            return self.inner.store()
        if self.kind == "take":
            self.inner.store_if_place()
        if self.lv is not None:
            self.an.write_lv(self.c.st, self.lv, self.value())

    def store_if_place(self):
        if self.lv is not None or self.kind != "src":
            self.store()

    # -- primitive operations
    def rd(self, n):
        s = self.source()
        return lift(lambda h, p, m: ZERO if m.is_const() and m.const == 0 else atom(term("rd", h, p, m, lo=0, hi=2)), s.h, s.pos, n)

    def consumed(self, n, full):
        """After an attempt to read n bytes that worked where `full` holds"""
        s = self.source()
        left = lift(lambda h, p, m: atom(term("left", h, p, m, lo=1, hi=max(1, min(U64, bounds(m)[1])))), s.h, s.pos, n)
        for t in self.limits():
            if self.an.ile(t.limit, n) is TRUE and self.an.ile(n, t.limit) is TRUE:
                t.limit = ite(full, ZERO, left)
            else:
                t.limit = self.an.isub(t.limit, ite(full, n, self.an.isub(n, left)))
        bad = lift(lambda h, p, m: atom(term("badpos", h, p, m, lo=0, hi=U64)), s.h, s.pos, n)
        s.pos = ite(full, self.an.iadd(s.pos, n), bad)
        self.store()

    def least(self, n=None):
        """The smallest of n and all limits (None: no bound)"""
        for t in self.limits():
            n = t.limit if n is None else ite(self.an.ile(n, t.limit), n, t.limit)
        return n


def reader(c, i=0):
    try:
        lv, _ = c.arg_target(i)
        return Reader(c, lv)
    except ValueError:
        return None


def variant(an, ty, name):
    for i, v in enumerate(an.ty[ty]["variants"]):
        if v["name"] == name:
            return i
    return None


UNEXPECTED_EOF = "UnexpectedEof"
KINDS = {}


def io_kind(name):
    """Number of an I/O error kind (by name, as the enum type may not be part of the program)"""
    return term("kindname", name)


def kind_index(c_or_an, name):
    an = getattr(c_or_an, "an", c_or_an)
    for i, t in enumerate(an.ty.t):
        if t["k"] == "adt" and t.get("path", "").endswith("io::error::ErrorKind") and t.get("variants"):
            r = variant(an, i, name)
            if r is not None:
                return num(r)
    return atom(term("kindname", name, lo=0, hi=63))


_shapes = {}


def io_error(kind, payload):
    """The payload is kept as an enum over the shapes of values, so that errors of different origin can be merged."""
    if isinstance(payload, Agg):
        i = _shapes.setdefault((payload.tag, len(payload.kids)), len(_shapes) + 2)
    else:
        i = 1 if isinstance(payload, En) else 0
    return agg("ioerror", (kind, en(num(i), {i: (payload,)})))


def io_payload(v, p=TRUE):
    """What an I/O error holds (under p)"""
    x = con_val(v.kids[1], p)
    for i, kids in x.vs:
        if x.d is num(i) or len(x.vs) == 1:
            return kids[0]
    return x


def result(err, ok, bad):
    return en(ite(err, ONE, ZERO), {0: (ok,), 1: (bad,)})


def read_error(c, s, n):
    """The error of a read of n bytes at s that did not work"""
    eof = lift(lambda h, p, m: test(atom(term("rd", h, p, m, lo=0, hi=2)), 1, 1), s.h, s.pos, n)
    k = lift(lambda h, p, m: atom(term("readkind", h, p, m, lo=0, hi=63)), s.h, s.pos, n)
    e = lift(lambda h, p, m: term("readerr", h, p, m), s.h, s.pos, n)
    return io_error(ite(eof, kind_index(c, UNEXPECTED_EOF), k), e)


def log(c, name, *args):
    c.an.event("io", name, tuple(args), c.st, c.n, callee=c.callee)


@on("alloc::io::read::Read::by_ref", "std::io::Read::by_ref")
def _by_ref(c):
    return c.args[0]


@on("alloc::io::read::Read::take", "std::io::Read::take")
def _take(c):
    an = c.an
    x = c.args[0]
    ty = c.at[0]
    if is_source(an, ty) and not isinstance(x, Agg):
        x = an.expand(x, ty)
    return agg("take", (x, c.args[1]))


@on("core::io::util::Take::<T>::limit", "std::io::Take::<T>::limit", "std::io::util::Take::<T>::limit")
def _limit(c):
    r = reader(c)
    return c.unknown() if r is None or r.kind != "take" else r.limit


@on("core::io::util::Take::<T>::set_limit", "std::io::Take::<T>::set_limit")
def _set_limit(c):
    r = reader(c)
    if r is None or r.kind != "take":
        return c.unknown()
    r.limit = c.args[1]
    r.store()
    return UNIT


@on("core::io::util::Take::<T>::into_inner", "std::io::Take::<T>::into_inner")
def _into_inner(c):
    v = c.args[0]
    return v.kids[0] if isinstance(v, Agg) and v.tag == "take" else c.unknown()


@on("core::io::util::Take::<T>::get_mut", "core::io::util::Take::<T>::get_ref")
def _get_mut(c):
    lv, pty = c.arg_target(0)
    v, _ = c.read_arg(0)
    if isinstance(v, Agg) and v.tag == "take" and is_scalar(v.kids[0]):
        r = ("H", c.an.cur.id, c.n.id)
        c.an.root_ty[r] = c.an.ty.pointee(c.dty)
        c.st.s[r] = v.kids[0]
        return refv(place(r))
    return c.unknown()


def read_fixed(c, n, value, ok_value):
    """read_exact-like: n bytes or an error"""
    r = reader(c)
    if r is None:
        return c.unknown()
    s = r.source()
    m = r.least(n)
    short = p_not(c.an.ile(n, m))
    out = r.rd(m)
    full = p_and(p_not(short), map1(lambda x: TRUE if x is UNDEF else test(x, 0, 0), out))
    log(c, "read", s.h, s.pos, n)
    err = read_error(c, s, m)
    if short is not FALSE:
        err = c.an.merge(p_and(short, test(out, 0, 0) if isinstance(out, Poly) else TRUE), io_error(kind_index(c, UNEXPECTED_EOF), term("eof")), err)
    h, p = s.h, s.pos
    v = value(h, p)
    r.consumed(m, full)
    return full, v, err


def number(c, size, signed, order):
    def value(h, p):
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        return lift(lambda a, b: atom(term("bytes", a, b, size, order, signed, lo=lo, hi=hi)), h, p)
    r = read_fixed(c, num(size), value, None)
    if isinstance(r, tuple):
        full, v, err = r
        return result(p_not(full), v, err)
    return r


def byteorder_of(c):
    ts = c.callee.get("targs") or ()
    k = c.an.ty.name(ts[-1]) if ts else ""
    return "be" if "BigEndian" in k else "le" if "LittleEndian" in k else "?"


for _n, _s, _g in (("u8", 1, False), ("i8", 1, True), ("u16", 2, False), ("i16", 2, True), ("u32", 4, False), ("i32", 4, True), ("u64", 8, False), ("i64", 8, True)):
    on(f"byteorder::io::ReadBytesExt::read_{_n}")(lambda c, s=_s, g=_g: number(c, s, g, byteorder_of(c)))


@on("alloc::io::read::Read::read_exact", "std::io::Read::read_exact")
def _read_exact(c):
    an = c.an
    ref, start, ln = an.fat(con_val(c.args[1], c.st.p), c.at[1])
    if not isinstance(ln, Poly):
        return c.unknown()
    r = read_fixed(c, ln, lambda h, p: (h, p), None)
    if not isinstance(r, tuple):
        return r
    full, (h, p), err = r
    if isinstance(h, Node) or isinstance(p, Node):
        return c.unknown()
    for g, pl in an.targets(ref, None, c.st.p):
        old = an.read(c.st, pl)
        if isinstance(old, Agg) and old.tag == "array" and start is ZERO and ln.is_const() and ln.const == len(old.kids):
            new = agg("array", [atom(term("byte", h, padd(p, num(i)), lo=0, hi=255)) for i in range(len(old.kids))])
            an.write(c.st, pl, an.merge(full, new, old), g)
        elif start is ZERO and an.len_of(old) is ln:
            new = term("content", h, p, ln, ty=old.ty if isinstance(old, T) else None)
            an.write(c.st, pl, ite(full, new, old) if is_scalar(old) else new, g)
        else:
            an.write(c.st, pl, term("evout", an.cur.id, c.n.id, 1, c.name, sym=an.cur.id), g)
    return result(p_not(full), UNIT, err)


def from_bytes(c, order, i=0):
    """Integer made of the bytes of an array"""
    an = c.an
    v = c.args[i]
    ty = c.dty
    lo, hi = an.ty.range(ty)
    if isinstance(v, Agg) and v.tag == "array" and all(isinstance(k, (Poly, Node)) for k in v.kids):
        def f(*ks):
            ts = [k.terms[0][0][0] if len(k.terms) == 1 and k.const == 0 and k.terms[0][1] == 1 and len(k.terms[0][0]) == 1 else None for k in ks]
            if all(t is not None and t.op == "byte" and t.args[0] is ts[0].args[0] and t.args[1] is padd(ts[0].args[1], num(j)) for j, t in enumerate(ts)):
                return atom(term("bytes", ts[0].args[0], ts[0].args[1], len(ts), order, lo < 0, lo=lo, hi=hi))
            if all(k.is_const() for k in ks):
                return num(int.from_bytes(bytes(k.const for k in ks), "big" if order == "be" else "little", signed=lo < 0))
            return atom(term("frombytes", tuple(ks), order, lo=lo, hi=hi))
        return lift(f, *v.kids)
    if is_scalar(v):
        return lift(lambda x: atom(term("frombytes", x, order, lo=lo, hi=hi)), v)
    return c.unknown()


for _n in ("u16", "u32", "u64", "i16", "i32", "i64"):
    on(f"core::num::<impl {_n}>::from_be_bytes")(lambda c: from_bytes(c, "be"))
    on(f"core::num::<impl {_n}>::from_le_bytes")(lambda c: from_bytes(c, "le"))


@on("<byteorder::BigEndian as byteorder::ByteOrder>::read_u32")
def _be_read_u32(c):
    return slice_number(c, 4, "be", False)


@on("<byteorder::LittleEndian as byteorder::ByteOrder>::read_u32")
def _le_read_u32(c):
    return slice_number(c, 4, "le", False)


@on("<byteorder::BigEndian as byteorder::ByteOrder>::read_i32")
def _be_read_i32(c):
    return slice_number(c, 4, "be", True)


def slice_number(c, size, order, signed):
    an = c.an
    ref, start, ln = an.fat(con_val(c.args[0], c.st.p), c.at[0])
    an.event("panicif", "read out of range", (p_not(an.ile(num(size), ln)),), c.st, c.n, callee=c.callee)
    c.st.p = p_and(c.st.p, an.ile(num(size), ln))
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    h, p = slice_source(c, ref), start
    log(c, "read", h, p, num(size))
    return lift(lambda a, b: atom(term("bytes", a, b, size, order, signed, lo=lo, hi=hi)), h, p)


def slice_source(c, ref):
    """The content of a slice as a handle"""
    an = c.an

    def of(x):
        if x is UNDEF:
            return UNDEF
        try:
            tg = an.targets(x, None, c.st.p)
            v = an.read(c.st, tg[0][1]) if len(tg) == 1 else None
        except Exception as e:
            v = None
            if os.environ.get("VFA_DEBUG"):
                print("slice_source", repr(x)[:200], repr(e)[:200])
        if v is not None and not isinstance(v, Agg) and is_scalar(v):
            return map1(lambda y: UNDEF if y is UNDEF else term("mem", y), v)
        return term("mem", x)
    return map1(of, ref)


# ---------------------------------------------------------------- messages
def parse(c, ty, h, p, n):
    """Result of parsing the n bytes at p as a message"""
    an = c.an
    nm = an.ty.name(ty)
    # an error inside of the bytes, or while reading them
    bad = lift(lambda a, b, m: test(atom(term("parse", nm, a, b, m, lo=0, hi=1)), 1, 1), h, p, n)
    msg = lift(lambda a, b, m: an.mk(term("msg", nm, a, b, m, ty=ty), ty), h, p, n)
    err = lift(lambda a, b, m: term("perr", nm, a, b, m), h, p, n)
    c.an.event("io", "parse", (h, p, n, ty), c.st, c.n, callee=c.callee)
    return bad, result(bad, msg, err)


def ok_type(c):
    return c.an.ty[c.dty]["args"][0]


@on("protobuf::message::Message::parse_from_reader")
def _parse_from_reader(c):
    r = reader(c)
    if r is None:
        return c.unknown()
    s = r.source()
    n = r.least()
    if n is None:
        n = lift(lambda h, p: atom(term("rest", h, p, lo=0, hi=U64)), s.h, s.pos)
    bad, res = parse(c, ok_type(c), s.h, s.pos, n)
    out = r.rd(n)
    r.consumed(n, p_and(p_not(bad), map1(lambda x: FALSE if x is UNDEF else test(x, 0, 0), out)))
    return res


@on("protobuf::message::Message::parse_from_bytes")
def _parse_from_bytes(c):
    an = c.an
    ref, start, ln = an.fat(con_val(c.args[0], c.st.p), c.at[0])
    h, p = slice_source(c, ref), start
    tg = an.targets(ref, None, c.st.p)
    if len(tg) == 1:
        x = an.read(c.st, tg[0][1]) if tg[0][1].root[0] != "S" else None
        if isinstance(x, T) and x.op == "content":
            h, p = x.args[0], an.iadd(x.args[1], start)
    _, res = parse(c, ok_type(c), h, p, ln)
    return res


@on("flate2::zlib::read::ZlibDecoder::<R>::new", "flate2::zlib::bufread::ZlibDecoder::<R>::new", "flate2::read::ZlibDecoder::<R>::new")
def _zlib(c):
    an = c.an
    try:
        ref, start, ln = an.fat(con_val(c.args[0], c.st.p), c.at[0])
    except Exception:
        return c.unknown()
    h = lift(lambda x, a, b: term("inflate", x, a, b), slice_source(c, ref), start, ln)
    return mk_src(h, ZERO)


# ---------------------------------------------------------------- I/O errors
@on("alloc::io::error::<impl core::io::error::Error>::new", "std::io::error::Error::new", "std::io::Error::new", "core::io::error::Error::new")
def _ioerr_new(c):
    k = c.args[0]
    return io_error(k.d if isinstance(k, En) else map1(lambda x: x if x is UNDEF else c.an.disc_term(x, c.at[0]), k), c.args[1])


@on("<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from", "<std::io::error::Error as core::convert::From<std::io::error::ErrorKind>>::from",
    "<std::io::Error as core::convert::From<std::io::ErrorKind>>::from")
def _ioerr_from_kind(c):
    k = c.args[0]
    return io_error(k.d if isinstance(k, En) else map1(lambda x: x if x is UNDEF else c.an.disc_term(x, c.at[0]), k), term("nopayload"))


@on("alloc::io::error::<impl core::io::error::Error>::other", "std::io::error::Error::other", "core::io::error::Error::other")
def _ioerr_other(c):
    return io_error(kind_index(c, "Other"), c.args[0])


@on("core::io::error::Error::kind", "std::io::error::Error::kind", "std::io::Error::kind")
def _ioerr_kind(c):
    v, pty = c.read_arg(0)
    v = c.an.expand(v, pty)
    if not (isinstance(v, Agg) and v.tag == "ioerror"):
        return c.unknown()
    n = len(c.an.ty[c.dty]["variants"])
    return en(v.kids[0], {i: () for i in range(n)})


# ---------------------------------------------------------------- seeking
def src_arg(c, i=0):
    r = reader(c, i)
    return r.source() if r is not None else None


@on("core::io::seek::Seek::stream_position", "std::io::Seek::stream_position")
def _stream_position(c):
    s = src_arg(c)
    if s is None:
        return c.unknown()
    log(c, "position", s.h, s.pos)
    bad = lift(lambda h, p: test(atom(term("poserr", h, p, lo=0, hi=1)), 1, 1), s.h, s.pos)
    e = lift(lambda h, p: term("posfail", h, p), s.h, s.pos)
    return result(bad, s.pos, c.an.expand(e, c.an.ty[c.dty]["args"][1]))


def seek_to(c, s, how, target):
    log(c, "seek", s.h, s.pos, target)
    bad = lift(lambda h, t: test(atom(term("seekerr", h, t, lo=0, hi=1)), 1, 1), s.h, target)
    e = lift(lambda h, t: term("seekfail", h, t), s.h, target)
    lost = lift(lambda h, p, t: atom(term("badseek", h, p, t, lo=0, hi=U64)), s.h, s.pos, target)
    s.pos = ite(bad, lost, target)
    s.store()
    return bad, e


@on("core::io::seek::Seek::seek", "std::io::Seek::seek", "<clients::io::Src as core::io::seek::Seek>::seek", "<clients::io::Src as std::io::Seek>::seek")
def _seek(c):
    an = c.an
    r = reader(c)
    if r is None:
        return c.unknown()
    s = r.source()
    w = an.expand(c.args[1], c.at[1])
    if not isinstance(w, En):
        return c.unknown()
    vs = {v["name"]: i for i, v in enumerate(an.ty[c.at[1]]["variants"])}
    tgt = None
    for nm, f in (("Start", lambda x: x), ("Current", lambda x: an.iadd(s.pos, x)),
                  ("End", lambda x: lift(lambda h, y: padd(atom(term("srclen", h, lo=0, hi=U64)), y), s.h, x))):
        pl = w.payload(vs[nm])
        if pl is None:
            continue
        x = f(pl[0])
        is_ = map1(lambda y, i=vs[nm]: FALSE if y is UNDEF else test(y, i, i), w.d)
        tgt = x if tgt is None else ite(is_, x, tgt)
    if r is not s and r.kind == "ref":
        r = s
    bad, e = seek_to(c, s, None, tgt)
    ety = an.ty[c.dty]["args"][1]
    return result(bad, tgt, an.expand(e, ety))


@on("core::io::seek::Seek::rewind", "std::io::Seek::rewind")
def _rewind(c):
    s = src_arg(c)
    if s is None:
        return c.unknown()
    bad, e = seek_to(c, s, None, ZERO)
    return result(bad, UNIT, c.an.expand(e, c.an.ty[c.dty]["args"][1]))


@on("core::io::seek::Seek::seek_relative", "std::io::Seek::seek_relative")
def _seek_rel(c):
    s = src_arg(c)
    if s is None:
        return c.unknown()
    bad, e = seek_to(c, s, None, c.an.iadd(s.pos, c.args[1]))
    return result(bad, UNIT, c.an.expand(e, c.an.ty[c.dty]["args"][1]))


# ---------------------------------------------------------------- files and maps
def path_value(c, v, ty):
    return v


@on("std::fs::File::open")
def _open(c):
    an = c.an
    v = path_arg(c, 0)
    log(c, "open", v)
    bad = lift(lambda x: test(atom(term("openerr", x, lo=0, hi=1)), 1, 1), v)
    e = lift(lambda x: term("openfail", x), v)
    h = lift(lambda x: term("file", x), v)
    return result(bad, mk_src(h, ZERO), an.expand(e, an.ty[c.dty]["args"][1]))


def path_arg(c, i):
    """A path argument, through references and AsRef"""
    v, ty = c.args[i], c.at[i]
    an = c.an
    while an.ty[ty]["k"] in ("ref", "ptr") and an.ty[an.ty[ty]["to"]]["k"] not in ("slice", "str") and not an.ty[an.ty[ty]["to"]].get("path", "").endswith("path::Path"):
        lv = an.targets(v, an.ty[ty]["to"], c.st.p)
        v, ty = con_val(an.read_lv(c.st, lv, an.ty[ty]["to"]), c.st.p), an.ty[ty]["to"]
    return v if is_scalar(v) else term("pathof", v)


@on("core::convert::AsRef::as_ref")
def _as_ref(c):
    if c.an.ty[c.an.ty.pointee(c.dty)].get("path", "").endswith("path::Path"):
        return path_arg(c, 0)
    return c.unknown()


@on("std::io::buffered::bufreader::BufReader::<R>::new", "alloc::io::buffered::bufreader::BufReader::<R>::new")
def _bufreader(c):
    x = c.args[0]
    return x if isinstance(x, Agg) else c.an.expand(x, c.at[0]) if is_source(c.an, c.at[0]) else c.unknown()


@on("std::io::buffered::bufreader::BufReader::<R>::with_capacity", "alloc::io::buffered::bufreader::BufReader::<R>::with_capacity")
def _bufreader_cap(c):
    x = c.args[1]
    return x if isinstance(x, Agg) else c.an.expand(x, c.at[1]) if is_source(c.an, c.at[1]) else c.unknown()


@on("memmap2::Mmap::map")
def _map(c):
    an = c.an
    r = reader(c)
    if r is None:
        return c.unknown()
    h = r.source().h
    log(c, "map", h)
    bad = lift(lambda x: test(atom(term("maperr", x, lo=0, hi=1)), 1, 1), h)
    ok, er = an.ty[c.dty]["args"]
    m = lift(lambda x: term("map", x, ty=ok), h)
    return result(bad, m, an.expand(lift(lambda x: term("mapfail", x), h), er))


@on("<memmap2::Mmap as core::ops::deref::Deref>::deref", "<memmap2::Mmap as core::convert::AsRef<[u8]>>::as_ref")
def _map_deref(c):
    v, _ = c.read_arg(0)
    if not is_scalar(v):
        return c.unknown()
    ref = lift(lambda x: term("mapped", x), v)
    return agg("fat", (ref, ZERO, lift(lambda x: atom(term("len", x, lo=0, hi=(1 << 63) - 1)), ref)))


@on("<core::io::error::ErrorKind as core::cmp::PartialEq>::eq", "<std::io::error::ErrorKind as core::cmp::PartialEq>::eq",
    "<core::io::error::ErrorKind as core::cmp::PartialEq>::ne", "<std::io::error::ErrorKind as core::cmp::PartialEq>::ne")
def kind_eq(c):
    an = c.an
    (a, ty), (b, _) = c.read_arg(0), c.read_arg(1)
    r = map2(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else eq(x, y), an.disc(a, ty), an.disc(b, ty))
    return from_pred(p_not(r) if c.name.endswith("ne") else r)
