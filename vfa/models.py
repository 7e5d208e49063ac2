"""Models of library functions that the analysis does not look into."""
from .dd import *
from .values import *

_STR = {}


def strid(s):
    if s not in _STR:
        _STR[s] = len(_STR) + 1
    return _STR[s]


SLICE_ITERS = ("core::slice::iter::Iter", "core::slice::iter::IterMut")
VEC_ITER = "alloc::vec::into_iter::IntoIter"


class Models:
    def __init__(self):
        self.exact = {}
        self.prefix = []
        self.weak = {}  # trait methods, used where no body is known

    def on(self, *names):
        def deco(f):
            for n in names:
                if n.endswith("*"):
                    self.prefix.append((n[:-1], f))
                else:
                    self.exact[n] = f
            return f
        return deco

    def fallback(self, callee):
        return self.lookup(callee) or self.weak.get((callee or {}).get("path"))

    def lookup(self, callee):
        if callee is None:
            return None
        for k in ("rpath", "path"):
            p = callee.get(k)
            if p is None:
                continue
            m = self.exact.get(p)
            if m is not None:
                return m
            for pre, f in self.prefix:
                if p.startswith(pre):
                    return f
        return None

    # modelled types ------------------------------------------------------
    def expand(self, an, v, ty):
        k = an.ty[ty]
        if k["k"] != "adt":
            return None
        p = k["path"]
        if p in SLICE_ITERS:
            def f(x):
                return x if x is UNDEF else term("iterslice", x, ty=None)
            ref = map1(f, v)
            ln = map1(lambda x: x if x is UNDEF else atom(term("len", x, lo=0, hi=(1 << 63) - 1)), ref)
            return agg("sliceiter", (agg("fat", (ref, ZERO, ln)), ZERO, ln))
        if p == VEC_ITER:
            vec = map1(lambda x: x if x is UNDEF else term("itervec", x, ty=None), v)
            return agg("veciter", (vec, ZERO, map1(lambda x: x if x is UNDEF else atom(term("len", x, lo=0, hi=(1 << 63) - 1)), vec)))
        return None

    def expand_as(self, an, v, other, ty):
        return None

    def unify(self, an, a, b, ty):
        return None

    def kid_types(self, an, b, ty):
        if b.tag in ("sliceiter", "veciter"):
            return [None, ("len",), ("len",)]
        if b.tag == "chunks":
            return [None, ("len",), ("len",), ("len",)]
        if b.tag == "btrange":
            return [None] * len(b.kids)
        return None

    def transmute(self, an, v, fty, tty):
        return None


M = Models()
on = M.on


def some(v):
    return {1: (v,), 0: ()}


def option(p, v):
    """Option that is Some(v) under predicate p"""
    return en(ite(p, ONE, ZERO), {0: (), 1: (v,)})


def bool_(p):
    return from_pred(p)


# ---------------------------------------------------------------- observation
@on("clients::obs")
def _obs(c):
    nm = c.args[0]
    c.an.event("obs", nm.args[0] if isinstance(nm, T) and nm.op == "str" else "?", (c.args[1],), c.st, c.n, callee=c.callee, extra=c.at[1])
    return UNIT


# ---------------------------------------------------------------- parallel reduction (clients::par)
@on("clients::par::exact")
def _exact(c):
    return c.an.iadd(c.args[0], c.args[1])


@on("clients::par::weight")
def _weight(c):
    return c.an.app("weight", c.args, c.dty)


@on("clients::par::ghost")
def _ghost(c):
    return term("ghost", ty=c.dty)


@on("clients::par::any")
def _any(c):
    return c.an.mk(term("any", c.n.id, ty=c.dty), c.dty)


@on("clients::par::first", "clients::par::second", "clients::par::third")
def _member(c):
    an = c.an
    lv, ty = c.arg_target(0)
    i = ("first", "second", "third").index(c.name.split("::")[-1])
    if an.ty.is_wrapper(ty):
        raise Imprecise("member of a pointer")
    el = ("f", None, i, an.ty.fields(ty)[i][1])
    return an.ref_to([(g, place(p.root, p.path + (el,))) for g, p in lv])


# ---------------------------------------------------------------- slices and vectors
def vec_fat(c, i=0):
    """Slice over the Vec (or array) that argument i refers to."""
    an = c.an
    lv, pty = c.arg_target(i)
    v = con_val(an.read_lv(c.st, lv, pty), c.st.p)
    return agg("fat", (an.ref_to(lv), ZERO, an.len_of(v)))


@on("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
    "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
    "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow")
def _vec_deref(c):
    return vec_fat(c)


def slice_iter(fat):
    return agg("sliceiter", (fat, ZERO, fat.kids[2]))


@on("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _slice_iter(c):
    f = c.slice_arg(0)
    return slice_iter(agg("fat", f))


@on("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
    "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def _vec_into_iter(c):
    return slice_iter(vec_fat(c))


@on("core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
    "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter")
def _sl_into_iter(c):
    return slice_iter(agg("fat", c.slice_arg(0)))


@on("core::slice::<impl [T]>::len")
def _slice_len(c):
    return c.slice_arg(0)[2]


@on("core::slice::<impl [T]>::is_empty")
def _slice_empty(c):
    return bool_(map1(lambda x: test(x, 0, 0), c.slice_arg(0)[2]))


@on("alloc::vec::Vec::<T, A>::len")
def _vec_len(c):
    return vec_fat(c).kids[2]


@on("alloc::vec::Vec::<T, A>::is_empty")
def _vec_empty(c):
    return bool_(map1(lambda x: test(x, 0, 0), vec_fat(c).kids[2]))


@on("<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def _vec_by_value(c):
    v = con_val(c.args[0], c.st.p)
    return agg("veciter", (v, ZERO, c.an.len_of(v)))


def vec_elem(c, vec, pos, ety):
    r = None
    for l, g in leaves(pos):
        x = UNDEF if l is UNDEF else c.an.elem_of(vec, l, ety)
        r = x if r is None else c.an.merge(g, x, r, ety)
    return r


@on("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next")
def _vec_it_next(c):
    it, ety = iter_state(c)
    vec, pos, end = it.kids
    has = c.an.ile(c.an.iadd(pos, ONE), end)
    c.write_arg(0, agg("veciter", (vec, ite(has, c.an.iadd(pos, ONE), pos), end)))
    return option(has, vec_elem(c, vec, pos, ety))


@on("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def _vec_it_next_back(c):
    it, ety = iter_state(c)
    vec, pos, end = it.kids
    has = c.an.ile(c.an.iadd(pos, ONE), end)
    e1 = c.an.isub(end, ONE)
    c.write_arg(0, agg("veciter", (vec, pos, ite(has, e1, end))))
    return option(has, vec_elem(c, vec, e1, ety))


def iter_state(c, i=0):
    v, pty = c.read_arg(i)
    it = c.an.expand(v, pty)
    return it, c.an.ty[pty]["args"][0]


@on("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
    "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _it_next(c):
    it, ety = iter_state(c)
    fat, pos, end = it.kids
    has = c.an.ile(c.an.iadd(pos, ONE), end)
    ref = c.an.elem_ref(fat.kids, pos, ety, None)
    np = map2(lambda h, x: x, has, pos)
    c.write_arg(0, agg("sliceiter", (fat, ite(has, c.an.iadd(pos, ONE), pos), end)))
    return option(has, ref)


@on("<core::slice::iter::Iter<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
    "<core::slice::iter::IterMut<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def _it_next_back(c):
    it, ety = iter_state(c)
    fat, pos, end = it.kids
    has = c.an.ile(c.an.iadd(pos, ONE), end)
    e1 = c.an.isub(end, ONE)
    ref = c.an.elem_ref(fat.kids, e1, ety, None)
    c.write_arg(0, agg("sliceiter", (fat, pos, ite(has, e1, end))))
    return option(has, ref)


@on("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::nth")
def _it_nth(c):
    it, ety = iter_state(c)
    fat, pos, end = it.kids
    i = c.an.iadd(pos, c.args[1])
    has = c.an.ile(c.an.iadd(i, ONE), end)
    c.write_arg(0, agg("sliceiter", (fat, ite(has, c.an.iadd(i, ONE), end), end)))
    return option(has, c.an.elem_ref(fat.kids, i, ety, None))


@on("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
    "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::size_hint")
def _it_hint(c):
    it, ety = iter_state(c)
    n = c.an.isub(it.kids[2], it.kids[1])
    return agg("tuple", (n, en(ONE, {1: (n,)})))


@on("<core::slice::iter::Iter<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
    "<core::slice::iter::Iter<'a, T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
    "<core::slice::iter::IterMut<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
    "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::count")
def _it_len(c):
    if c.name.endswith("count"):
        it = c.an.expand(c.args[0], c.at[0])
    else:
        it, ety = iter_state(c)
    return c.an.isub(it.kids[2], it.kids[1])


@on("core::slice::iter::Iter::<'a, T>::as_slice")
def _it_as_slice(c):
    it, ety = iter_state(c)
    fat, pos, end = it.kids
    return agg("fat", (fat.kids[0], c.an.iadd(fat.kids[1], pos), c.an.isub(end, pos)))


@on("<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone", "<core::slice::iter::Iter<'a, T> as core::clone::Clone>::clone")
def _it_clone(c):
    v, pty = c.read_arg(0)
    return v


@on("<core::slice::iter::Iter<'_, T> as core::default::Default>::default")
def _it_default(c):
    return slice_iter(agg("fat", (refv(place(("K", agg("array", ())))), ZERO, ZERO)))


@on("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def _first(c):
    f = c.slice_arg(0)
    ety = c.an.ty[c.an.ty.pointee(c.at[0])]["elem"]
    has = map1(lambda x: test(x, 1, INF), f[2])
    i = ZERO if c.name.endswith("first") else c.an.isub(f[2], ONE)
    return option(has, c.an.elem_ref(f, i, ety, None))


def range_of(c, v, ty, ln):
    """(start, end, predicate of validity) of a range value used as an index; None if not a range"""
    an = c.an
    p = an.ty.path(ty)
    if p == "core::ops::range::RangeFull":
        return ZERO, ln
    v = an.expand(v, ty)
    if p == "core::ops::range::Range":
        return v.kids[0], v.kids[1]
    if p == "core::ops::range::RangeFrom":
        return v.kids[0], ln
    if p == "core::ops::range::RangeTo":
        return ZERO, v.kids[0]
    if p == "core::ops::range::RangeToInclusive":
        return ZERO, an.iadd(v.kids[0], ONE)
    if p == "core::ops::range::RangeInclusive":
        return v.kids[0], an.iadd(v.kids[1], ONE)
    return None


def subslice(c, f, s, e):
    return agg("fat", (f[0], c.an.iadd(f[1], s), c.an.isub(e, s)))


def natural(x):
    """The number did not wrap around below zero"""
    return map1(lambda v: FALSE if v is UNDEF else test(v, 0, INF), x)


def _get(c, f, idx, ity, ety):
    an = c.an
    if an.ty[ity]["k"] == "int":
        ok = p_and(natural(idx), an.ile(an.iadd(idx, ONE), f[2]))
        return ok, an.elem_ref(f, idx, ety, None)
    r = range_of(c, idx, ity, f[2])
    if r is None:
        return None
    s, e = r
    ok = p_and(natural(s), p_and(an.ile(s, e), an.ile(e, f[2])))
    return ok, subslice(c, f, s, e)


@on("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _slice_get(c):
    f = c.slice_arg(0)
    ety = c.an.ty[c.an.ty.pointee(c.at[0])]["elem"]
    r = _get(c, f, c.args[1], c.at[1], ety)
    if r is None:
        return c.unknown()
    return option(*r)


@on("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index", "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut",
    "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut")
def _slice_index(c):
    an = c.an
    if "alloc::vec::Vec" in c.name:
        f = vec_fat(c).kids
        ety = an.ty[an.ty.pointee(c.at[0])]["args"][0]
    else:
        f = c.slice_arg(0)
        ety = an.ty[an.ty.pointee(c.at[0])]["elem"]
    r = _get(c, f, c.args[1], c.at[1], ety)
    if r is None:
        return c.unknown()
    ok, v = r
    bad = p_and(c.st.p, p_not(ok))
    if bad is not FALSE:
        from .engine import State
        an.event("panic", "index", (c.args[1], f[2]), State(bad, c.st.s), c.n, callee=c.callee)
    c.st.p = p_and(c.st.p, ok)
    return con_val(v, c.st.p)


@on("core::array::<impl core::ops::index::Index<I> for [T; N]>::index", "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut")
def _arr_index(c):
    an = c.an
    v, pty = c.read_arg(0)
    lv, _ = c.arg_target(0)
    f = (an.ref_to(lv), ZERO, num(an.ty[pty]["len"]))
    r = _get(c, f, c.args[1], c.at[1], an.ty[pty]["elem"])
    if r is None:
        return c.unknown()
    ok, v = r
    bad = p_and(c.st.p, p_not(ok))
    if bad is not FALSE:
        from .engine import State
        an.event("panic", "index", (c.args[1], f[2]), State(bad, c.st.s), c.n, callee=c.callee)
    c.st.p = p_and(c.st.p, ok)
    return con_val(v, c.st.p)


@on("core::slice::<impl [T]>::chunks")
def _chunks(c):
    f = c.slice_arg(0)
    zero = con_val(map1(lambda x: FALSE if x is UNDEF else test(x, 0, 0), c.args[1]), c.st.p)
    if zero is not FALSE:
        c.an.event("panicif", "size is zero", (zero,), c.st, c.n, callee=c.callee)
        c.st.p = p_and(c.st.p, p_not(zero))
    return agg("chunks", (agg("fat", f), ZERO, f[2], c.args[1]))


@on("<core::slice::iter::Chunks<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _chunks_next(c):
    an = c.an
    v, pty = c.read_arg(0)
    it = an.expand(v, pty)
    fat, pos, end, size = it.kids
    rem = an.isub(end, pos)
    has = map1(lambda x: test(x, 1, INF), rem)
    full = an.ile(size, rem)
    k = ite(full, size, rem)
    np = an.iadd(pos, k)
    c.write_arg(0, agg("chunks", (fat, ite(has, np, pos), end, size)))
    return option(has, agg("fat", (fat.kids[0], an.iadd(fat.kids[1], pos), k)))


@on("<I as core::iter::traits::collect::IntoIterator>::into_iter")
def _id_into_iter(c):
    return c.args[0]


@on("core::slice::<impl [T]>::split_at")
def _split_at(c):
    an = c.an
    f = c.slice_arg(0)
    ok = p_and(natural(c.args[1]), an.ile(c.args[1], f[2]))
    bad = p_and(c.st.p, p_not(ok))
    if bad is not FALSE:
        from .engine import State
        an.event("panic", "split_at", (c.args[1], f[2]), State(bad, c.st.s), c.n, callee=c.callee)
    c.st.p = p_and(c.st.p, ok)
    return agg("tuple", (subslice(c, f, ZERO, c.args[1]), subslice(c, f, c.args[1], f[2])))


# ---------------------------------------------------------------- strings
@on("<alloc::string::String as core::ops::deref::Deref>::deref", "alloc::string::String::as_str",
    "<alloc::string::String as core::convert::AsRef<str>>::as_ref", "<alloc::string::String as core::borrow::Borrow<str>>::borrow")
def _string_deref(c):
    v, pty = c.read_arg(0)
    return map1(lambda x: x if x is UNDEF else term("str_of", x, ty=c.dty), v)


def str_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x is UNDEF or y is UNDEF:
            return FALSE
        cx = isinstance(x, T) and x.op == "str"
        cy = isinstance(y, T) and y.op == "str"
        if cx and cy:
            return TRUE if x.args[0] == y.args[0] else FALSE
        if cx:
            x, y, cx, cy = y, x, cy, cx
        if cy:
            k = strid(y.args[0])
            return test(atom(term("strkey", x, lo=0, hi=1 << 62)), k, k)
        x, y = sorted((x, y), key=lambda z: z.id)
        return test(atom(term("streq", x, y, lo=0, hi=1)), 1, 1)
    return map2(f, a, b)


@on("core::str::traits::<impl core::cmp::PartialEq for str>::eq")
def _str_eq(c):
    return bool_(str_eq(*c.args[:2]))


@on("core::str::traits::<impl core::cmp::PartialEq for str>::ne")
def _str_ne(c):
    return bool_(p_not(str_eq(*c.args[:2])))


@on("core::str::converts::from_utf8", "core::str::<impl str>::from_utf8")
def _from_utf8(c):
    an = c.an
    f = c.slice_arg(0)
    v = slice_value(c, f)
    return pure(c, "from_utf8", (v,) if isinstance(v, tuple) is False else v)


def slice_value(c, f):
    """Canonical value describing the content of a slice."""
    an = c.an
    r = []
    lv = an.targets(f[0], None, c.st.p)
    v = None
    for g, pl in lv:
        x = content(an, c.st, pl)
        v = x if v is None else (ite(g, x, v) if is_scalar(x) and is_scalar(v) else v)
    if v is None:
        return UNDEF
    if f[1] is ZERO and f[2] is an.len_of(v):
        return v
    return term("sub", v, f[1], f[2])


def content(an, st, pl):
    if pl.root[0] == "S" and not pl.path and pl.root[2] is None:
        return term("deref", pl.root[1], ty=None)
    return an.read(st, pl)


def pure(c, op, args):
    return c.an.mk(term(op, *args, ty=c.dty), c.dty)


# ---------------------------------------------------------------- protobuf
@on("protobuf::message::Message::default_instance")
def _default_instance(c):
    pty = c.an.ty.pointee(c.dty)
    r = ("K", term("defmsg", ty=pty))
    c.an.root_ty[r] = pty
    return refv(place(r))


# ---------------------------------------------------------------- misc core
@on("core::panicking::*", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
    "std::rt::begin_panic*", "core::slice::index::slice_*", "std::panicking::*", "core::cell::panic_*")
def _panic(c):
    c.an.event("panic", c.name.split("::")[-1], tuple(c.args), c.st, c.n, callee=c.callee)
    return None


@on("core::mem::replace")
def _replace(c):
    v, _ = c.read_arg(0)
    c.write_arg(0, c.args[1])
    return v


@on("core::mem::take")
def _take(c):
    v, pty = c.read_arg(0)
    d = default_of(c.an, pty)
    if d is None:
        return c.unknown()
    c.write_arg(0, d)
    return v


@on("core::mem::swap")
def _swap(c):
    a, _ = c.read_arg(0)
    b, _ = c.read_arg(1)
    c.write_arg(0, b)
    c.write_arg(1, a)
    return UNIT


@on("core::mem::drop", "core::mem::forget", "<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop",
    "<alloc::vec::Vec<T, A> as core::ops::drop::Drop>::drop", "<alloc::raw_vec::RawVec<T, A> as core::ops::drop::Drop>::drop")
def _drop(c):
    return UNIT


def default_of(an, ty):
    k = an.ty[ty]
    if k["k"] == "int":
        return ZERO
    if k["k"] == "bool":
        return ZERO
    if k["k"] == "adt":
        if k["path"] == "core::option::Option":
            return en(ZERO, {0: ()})
        if k["path"] == "alloc::vec::Vec":
            return term("vecnew", ty=ty)
        if k["path"] == "core::slice::iter::Iter":
            return slice_iter(agg("fat", (refv(place(("K", agg("array", ())))), ZERO, ZERO)))
    return None


@on("core::intrinsics::discriminant_value")
def _dv(c):
    v, pty = c.read_arg(0)
    if not c.an.ty.is_enum(pty):
        return ZERO
    return c.an.discr_value(c.an.disc(v, pty), pty)


@on("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
def _vec_new(c):
    if c.name.endswith("capacity"):
        big = con_val(map1(lambda x: FALSE if x is UNDEF else p_not(test(x, 0, (1 << 63) - 1)), c.args[0]), c.st.p)
        if big is not FALSE:
            c.an.event("panicif", "capacity overflow", (big,), c.st, c.n, callee=c.callee)
            c.st.p = p_and(c.st.p, p_not(big))
    return term("vecnew", ty=c.dty)


@on("alloc::vec::Vec::<T, A>::clear")
def _vec_clear(c):
    lv, pty = c.arg_target(0)
    c.an.write_lv(c.st, lv, term("vecnew", ty=pty))
    return UNIT


@on("alloc::vec::Vec::<T, A>::push")
def _vec_push(c):
    lv, pty = c.arg_target(0)
    an = c.an
    for g, pl in lv:
        v = an.read(c.st, pl)
        nv = map1(lambda t: t if t is UNDEF else term("push", t, c.args[1], ty=pty), con_val(v, c.st.p))
        an.write(c.st, pl, nv, TRUE if len(lv) == 1 else g)
    an.event("push", c.name, tuple(c.args), c.st, c.n, callee=c.callee, extra=tuple(pl for _, pl in lv))
    return UNIT


@on("alloc::boxed::Box::<T>::new")
def _box_new(c):
    r = ("H", c.an.cur.id, c.n.id)
    c.an.root_ty[r] = c.at[0]
    c.st.s[r] = c.args[0]
    return refv(place(r))
