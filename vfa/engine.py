"""Region-wise gated value numbering over the inlined graph, with widening at loop heads."""
import heapq
import struct
from . import dd
from .dd import *
from .values import *
from .program import Program, Graph, Types


class Imprecise(Exception):
    pass


class Restart(Exception):
    """The set of slots that loop heads keep apart has grown."""


class Event:
    __slots__ = ("kind", "name", "args", "pred", "cp", "node", "frame", "sp", "res", "callee", "extra", "rpo", "store")

    def __repr__(self):
        return f"<{self.kind} {self.name}({', '.join(map(repr, self.args))}) @cp{self.cp} if {self.pred!r}>"


class CP:
    """A cut point: loop head (with a valuation of its discrete slots) or the entry."""

    def __init__(self, id, node, sig):
        self.id, self.node, self.sig = id, node, sig
        self.store = None
        self.pred = FALSE
        self.mus = {}          # slot key -> term
        self.dirty = True
        self.changed = False
        self.ran = False
        self.srcs = set()
        self.init = {}
        self.edges = []


class Edge:
    __slots__ = ("src", "dst", "pred", "upd", "store", "ret")


class State:
    __slots__ = ("p", "s")

    def __init__(self, p, s):
        self.p, self.s = p, s


FUEL = 400000


def floordiv(x, d):
    """x / d, rounded down; multiples of d are taken out"""
    whole, rest = {}, {}
    for m, c in x.terms:
        (rest if c % d else whole)[m] = c if c % d else c // d
    r = poly(rest, x.const % d)
    q = poly(whole, x.const // d)
    if r.is_const():
        return q
    l, h = bounds(r)
    return padd(q, atom(term("div" if l >= 0 else "fdiv", r, num(d), lo=l if l == -INF else l // d, hi=h if h == INF else h // d)))


class Engine:
    def __init__(self, prog, models):
        self.prog = prog
        self.ty = prog.types
        self.models = models
        dd.RANGE_HOOK[0] = self.ty.range
        self.root_ty = {}
        self.frozen = {}
        self.warnings = []
        self.static_events = {}
        self.default_env = {}
        self.heap_memo = {}

    # ------------------------------------------------------------ types and opaque values
    def mk(self, t, ty):
        """Value of the opaque term t of type ty."""
        if ty is None:
            return t
        k = self.ty[ty]
        kk = k["k"]
        if kk in ("int", "char"):
            return atom(t)
        if kk == "bool":
            return from_pred(test(atom(t), 1, 1))
        if kk == "tuple" and not k["tys"]:
            return UNIT
        if kk == "fndef":
            return fnv(k["callee"], k["path"])
        return t

    def sym(self, name, ty):
        return self.mk(term("sym", name, ty=ty), ty)

    def app(self, op, args, ty, sym=None, **kw):
        return self.mk(term(op, *args, ty=ty, sym=sym, **kw), ty)

    def is_fat(self, ty):
        p = self.ty.pointee(ty)
        return p is not None and self.ty[p]["k"] == "slice"

    def fld(self, t, ty, vi, idx):
        """Field of an opaque value t (T) of type ty."""
        fs = self.ty.fields(ty, vi)
        if fs is None or idx >= len(fs):
            raise Imprecise(f"field {idx} of {self.ty.name(ty)}")
        name, fty = fs[idx]
        if self.ty.is_enum(ty):
            name = self.ty.vname(ty, vi) + "." + name
        if t.op == "defmsg":
            return self.default_value(fty, t)
        return self.mk(term("fld", t, idx if vi is None else (vi, idx), name, ty=fty), fty)

    def default_value(self, ty, t):
        k = self.ty[ty]
        if k["k"] == "adt":
            p = k["path"]
            if p == "core::option::Option":
                return en(num(0), {0: ()})
            if p.endswith("vec::Vec"):
                return term("vecnew", ty=ty)
            if p.endswith("message_field::MessageField"):
                return agg(p, (en(num(0), {0: ()}),))
        return self.app("defval", (t,), ty)

    def disc_term(self, t, ty):
        n = len(self.ty[ty]["variants"])
        return atom(term("disc", t, ty=None, lo=0, hi=max(n - 1, 0)))

    def expand(self, v, ty):
        """Make the top level structure of an opaque value explicit."""
        if isinstance(v, (Agg, En)):
            return v
        if v is UNDEF:
            return v
        k = self.ty[ty]
        m = self.models.expand(self, v, ty)
        if m is not None:
            return m
        if k["k"] in ("ref", "ptr") and self.is_fat(ty) or (k["k"] == "adt" and self.is_fat(ty)):
            ref = v
            ln = map1(lambda x: x if x is UNDEF else self.len_of(self.deref_value_root(x, self.ty.pointee(ty))), v)
            return agg("fat", (ref, ZERO, ln))
        if self.ty.is_enum(ty):
            d = map1(lambda x: x if x is UNDEF else self.disc_term(x, ty), v)
            vs = {}
            for vi, var in enumerate(k["variants"]):
                vs[vi] = tuple(map1(lambda x, i=i, vi=vi: x if x is UNDEF else self.fld(x, ty, vi, i), v) for i in range(len(var["fields"])))
            return en(d, vs)
        if self.ty.is_wrapper(ty):
            return v
        fs = self.ty.fields(ty)
        if fs is not None:
            return agg(k.get("path", "tuple"), [map1(lambda x, i=i: x if x is UNDEF else self.fld(x, ty, None, i), v) for i in range(len(fs))])
        if k["k"] == "array" and k["len"] is not None and k["len"] <= 16:
            return agg("array", [map1(lambda x, i=i: x if x is UNDEF else self.app("elem", (x, num(i)), k["elem"]), v) for i in range(k["len"])])
        return v

    def deref_value_root(self, ref, pty):
        """The container value that an opaque reference designates (initially)."""
        if isinstance(ref, RefV):
            return self.read_default(ref.place, pty)
        if pty is not None and self.ty[pty]["k"] == "slice":
            pty = None
        return term("deref", ref, ty=pty)

    def read_default(self, pl, pty=None):
        """Content of a place that nothing has written to."""
        v = self.frozen.get(pl.root)
        if v is None:
            v = self.root_default(pl.root)
        return self.rd_path(v, self.root_type(pl.root), pl.path) if pl.path else v

    def slice_ref(self, fat, store):
        """A slice as a container reference: the reference itself if the slice is all of it."""
        if not isinstance(fat, Agg):
            return fat
        ref, start, ln = fat.kids
        st = State(TRUE, store)

        def f(r, s, n, g):
            if r is UNDEF or s is UNDEF or n is UNDEF:
                return UNDEF
            if s is ZERO:
                try:
                    if isinstance(r, RefV):
                        c = self.read(st, r.place)
                    elif isinstance(r, T):
                        c = term("deref", r, ty=None)
                    else:
                        return None
                    if constrain(self.len_of(c), g) is n:
                        return r
                except Imprecise:
                    pass
            return term("subref", r, s, n)
        if any(isinstance(x, (Agg, En)) for x in (ref, start, ln)):
            return fat
        out = None
        for r, g in leaves(ref):
            for s, g2 in leaves(start, g):
                n = constrain(ln, g2)
                for n1, g3 in leaves(n, g2):
                    x = f(r, s, n1, g3)
                    if x is None:
                        return fat
                    out = x if out is None else ite(g3, x, out)
        return fat if out is None else out

    # ------------------------------------------------------------ sequences
    def len_of(self, v):
        """Length of a sequence value (diagram of terms, or array aggregate)."""
        if isinstance(v, Agg) and v.tag == "array":
            return num(len(v.kids))
        if isinstance(v, (Agg, En)):
            return atom(term("len", v, lo=0, hi=(1 << 63) - 1))

        def f(t):
            if t is UNDEF:
                return ZERO
            if isinstance(t, T):
                if t.op == "vecnew":
                    return ZERO
                if t.op == "push":
                    return map1(lambda x: padd(x, ONE), self.len_of(t.args[0]))
                if t.op == "upd":
                    return self.len_of(t.args[0])
                if t.op == "str":
                    return num(len(t.args[0].encode()))
                if t.ty is not None and self.ty[t.ty]["k"] == "array" and self.ty[t.ty]["len"] is not None:
                    return num(self.ty[t.ty]["len"])
            return atom(term("len", t, lo=0, hi=(1 << 63) - 1))
        return map1(f, v)

    def elem_of(self, v, idx, ety):
        """Element of a sequence value at a plain Poly index."""
        if isinstance(v, Agg) and v.tag == "array":
            if idx.is_const() and 0 <= idx.const < len(v.kids):
                return v.kids[idx.const]
            if len(v.kids) <= 16 and v.kids:
                r = v.kids[-1]
                for i in range(len(v.kids) - 2, -1, -1):
                    r = self.merge(eq(idx, num(i)), v.kids[i], r, ety)
                return r
            return self.app("elem", (v, idx), ety)
        if isinstance(v, (Agg, En)):
            return self.app("elem", (v, idx), ety)

        def f(t):
            if t is UNDEF:
                return UNDEF
            if isinstance(t, T) and t.op == "upd":
                d = psub(idx, t.args[1])
                if d.is_const():
                    return t.args[2] if d.const == 0 else self.elem_of(t.args[0], idx, ety)
            if isinstance(t, T) and t.op == "push":
                ln = self.len_of(t.args[0])
                if isinstance(ln, Poly):
                    d = psub(idx, ln)
                    if d.is_const() and d.const == 0:
                        return t.args[1]
                    if d.is_const() and d.const < 0:
                        return self.elem_of(t.args[0], idx, ety)
            return self.app("elem", (t, idx), ety)
        if is_scalar(v) and not isinstance(v, Node):
            return f(v)
        r = None
        for l, g in leaves(v):
            x = f(l)
            r = x if r is None else self.merge(g, x, r, ety)
        return r

    # ------------------------------------------------------------ merge
    def merge(self, p, a, b, ty=None):
        """p ? a : b"""
        if a is b or p is TRUE:
            return a
        if p is FALSE:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, (Agg, En)) != isinstance(b, (Agg, En)):
            ty = ty if ty is not None else self.find_ty(a if is_scalar(a) else b)
            if ty is None:
                raise Imprecise(f"merge of {a!r} and {b!r}")
            a, b = self.expand_like(a, b, ty), self.expand_like(b, a, ty)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.tag != b.tag or len(a.kids) != len(b.kids):
                m = self.models.unify(self, a, b, ty)
                if m is None:
                    raise Imprecise(f"merge of {a.tag}/{len(a.kids)} and {b.tag}/{len(b.kids)}")
                a, b = m
            return agg(a.tag, [self.merge(p, x, y) for x, y in zip(a.kids, b.kids)])
        if isinstance(a, En) and isinstance(b, En):
            vs = dict(a.vs)
            for vi, kids in b.vs:
                if vi in vs:
                    vs[vi] = tuple(self.merge(p, x, y) for x, y in zip(vs[vi], kids))
                else:
                    vs[vi] = kids
            return en(ite(p, a.d, b.d), vs)
        return ite(p, a, b)

    def expand_like(self, v, other, ty):
        if isinstance(v, (Agg, En)):
            return v
        r = self.expand(v, ty)
        if is_scalar(r):
            m = self.models.expand_as(self, r, other, ty)
            if m is None:
                raise Imprecise(f"cannot expand {v!r} to the shape of {other!r}")
            return m
        return r

    def find_ty(self, v):
        for l, _ in leaves(v):
            if isinstance(l, T) and l.ty is not None:
                return l.ty
        return None

    # ------------------------------------------------------------ field access on values
    def get_field(self, v, ty, vi, idx):
        if v is UNDEF:
            return UNDEF
        if is_scalar(v):
            v = self.expand(v, ty)
            if is_scalar(v):
                if self.ty.is_wrapper(ty) and idx == 0:
                    return v
                raise Imprecise(f"field {idx} of {v!r} : {self.ty.name(ty)}")
        if isinstance(v, En):
            kids = v.payload(vi)
            if kids is None:
                return UNDEF
            return kids[idx]
        if v.tag == "fat" and self.ty.is_wrapper(ty):
            return v
        if idx >= len(v.kids):
            raise Imprecise(f"field {idx} of {v!r}")
        return v.kids[idx]

    def set_field(self, v, ty, vi, idx, x):
        if v is UNDEF:
            n = len(self.ty.fields(ty, vi))
            kids = [UNDEF] * n
            kids[idx] = x
            if self.ty.is_enum(ty):
                return en(UNDEF, {vi: tuple(kids)})
            return agg(self.ty[ty].get("path", "tuple"), kids)
        v = self.expand(v, ty)
        if isinstance(v, En):
            vs = dict(v.vs)
            kids = list(vs.get(vi, [UNDEF] * len(self.ty.fields(ty, vi))))
            kids[idx] = x
            vs[vi] = tuple(kids)
            return en(v.d, vs)
        kids = list(v.kids)
        kids[idx] = x
        return agg(v.tag, kids)

    def disc(self, v, ty):
        """Variant index diagram."""
        if v is UNDEF:
            return UNDEF
        v = self.expand(v, ty)
        if isinstance(v, En):
            return v.d
        raise Imprecise(f"discriminant of {v!r}")

    # ------------------------------------------------------------ memory
    def root_default(self, root):
        k = root[0]
        if k == "S":
            return self.mk(term("deref", root[1], ty=root[2]), root[2])
        if k == "K":
            return root[1]
        if k == "H":
            return UNDEF
        return UNDEF

    def path_ty(self, root_ty, path):
        ty = root_ty
        for e in path:
            if e[0] == "f":
                ty = self.ty.fields(ty, e[1])[e[2]][1] if e[3] is None else e[3]
            elif e[0] == "e":
                ty = self.ty.elem(ty) if e[2] is None else e[2]
        return ty

    def rd_path(self, v, ty, path):
        for i, e in enumerate(path):
            if v is UNDEF:
                return UNDEF
            if e[0] == "f":
                v = self.get_field(v, ty, e[1], e[2])
                ty = e[3]
            else:
                v = self.elem_of(v, e[1], e[2])
                ty = e[2]
        return v

    def wr_path(self, v, ty, path, x):
        if not path:
            return x
        e = path[0]
        if e[0] == "f":
            cur = self.get_field(v, ty, e[1], e[2]) if v is not UNDEF and len(path) > 1 else UNDEF
            new = self.wr_path(cur, e[3], path[1:], x)
            return self.set_field(v, ty, e[1], e[2], new)
        cur = self.elem_of(v, e[1], e[2]) if len(path) > 1 and v is not UNDEF else UNDEF
        new = self.wr_path(cur, e[2], path[1:], x)
        if isinstance(v, Agg) and v.tag == "array":
            if e[1].is_const() and 0 <= e[1].const < len(v.kids):
                kids = list(v.kids)
                kids[e[1].const] = new
                return agg("array", kids)
            kids = [self.merge(eq(e[1], num(i)), new, k, e[2]) for i, k in enumerate(v.kids)]
            return agg("array", kids)

        def f(t):
            if t is UNDEF:
                return UNDEF
            if isinstance(t, T) and t.op == "upd" and t.args[1] is e[1]:
                t = t.args[0]
            return term("upd", t, e[1], new, ty=t.ty if isinstance(t, T) else None)
        return map1(f, v)

    def root_type(self, root):
        if root[0] == "S":
            return root[2]
        return self.root_ty.get(root)

    def read(self, st, pl):
        v = st.s.get(pl.root)
        if v is None:
            v = self.root_default(pl.root)
        if not pl.path:
            return v
        return self.rd_path(v, self.root_type(pl.root), pl.path)

    def write(self, st, pl, x, guard=TRUE):
        v = st.s.get(pl.root)
        if v is None:
            v = self.root_default(pl.root)
        rty = self.root_type(pl.root)
        new = self.wr_path(v, rty, pl.path, x)
        if guard is not TRUE:
            new = self.merge(guard, new, v, rty)
        st.s[pl.root] = new

    # ------------------------------------------------------------ pointers
    def targets(self, v, pty, p=TRUE):
        """[(guard, Place)] designated by a thin pointer value; pty: pointee type"""
        if isinstance(v, Agg) and v.tag == "fat":
            v = v.kids[0]
        if isinstance(v, (Agg, En)):
            raise Imprecise(f"pointer {v!r}")
        v = constrain(v, p)
        r = []
        for l, g in leaves(v):
            if isinstance(l, RefV):
                r.append((g, l.place))
            elif isinstance(l, T):
                r.append((g, self.sym_place(l, pty)))
            elif l is UNDEF:
                continue
            else:
                raise Imprecise(f"pointer {l!r}")
        return r

    def sym_place(self, t, pty):
        if pty is not None and self.ty[pty]["k"] == "slice":
            pty = None
        return place(("S", t, pty))

    def ref_to(self, lv):
        """Pointer value for an lvalue [(guard, Place)]"""
        r = None
        for g, pl in lv:
            x = self.mkref(pl)
            r = x if r is None else ite(g, x, r)
        return UNDEF if r is None else r

    def mkref(self, pl):
        if pl.root[0] == "S" and not pl.path:
            return pl.root[1]
        return refv(pl)

    def read_lv(self, st, lv, ty):
        r = None
        for g, pl in lv:
            x = self.read(st, pl)
            r = x if r is None else self.merge(g, x, r, ty)
        return UNDEF if r is None else r

    def write_lv(self, st, lv, x):
        if len(lv) == 1:
            self.write(st, lv[0][1], x)
        else:
            for g, pl in lv:
                self.write(st, pl, x, g)

    # fat pointers: container lvalue and range
    def fat(self, v, ty=None):
        if isinstance(v, Agg) and v.tag == "fat":
            return v.kids
        e = self.expand(v, ty)
        if isinstance(e, Agg) and e.tag == "fat":
            return e.kids
        raise Imprecise(f"slice pointer {v!r}")

    def mkfat(self, ref, start, ln):
        return agg("fat", (ref, start, ln))

    def elem_ref(self, fatv, i, ety, cty):
        """Reference to element i (Poly diagram) of the slice; ety element type, cty container type."""
        ref, start, ln = fatv

        def h(rl, idx):
            if rl is UNDEF or idx is UNDEF:
                return UNDEF
            if isinstance(rl, RefV):
                pl = rl.place
                return refv(place(pl.root, pl.path + (("e", idx, ety),)))
            return refv(place(("S", rl, cty), (("e", idx, ety),)))
        idx = map2(lambda a, b: UNDEF if a is UNDEF or b is UNDEF else padd(a, b), start, i)
        return map2(h, ref, idx)

    # ------------------------------------------------------------ integer operations
    def iadd(self, a, b):
        return map2(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else padd(x, y), a, b)

    def isub(self, a, b):
        return map2(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else psub(x, y), a, b)

    def imul(self, a, b):
        return map2(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else pmul(x, y), a, b)

    def ile(self, a, b):
        return map2(lambda x, y: FALSE if x is UNDEF or y is UNDEF else le(x, y), a, b)

    def ieq(self, a, b):
        return map2(lambda x, y: FALSE if x is UNDEF or y is UNDEF else eq(x, y), a, b)

    def cast_int(self, v, fty, tty):
        flo, fhi = self.ty.range(fty)
        tlo, thi = self.ty.range(tty)

        def f(x):
            if x is UNDEF:
                return x
            lo, hi = bounds(x)
            lo, hi = max(lo, flo), min(hi, fhi)
            if lo >= tlo and hi <= thi:
                return x
            if x.is_const():
                n = x.const
                w = thi - tlo + 1
                return num((n - tlo) % w + tlo)
            w = thi - tlo + 1
            inr = test(x, tlo, thi)
            if lo >= tlo - w and hi <= thi + w:
                r = x
                if lo < tlo:
                    r = ite(test(x, -INF, tlo - 1), padd(x, num(w)), r)
                if hi > thi:
                    r = ite(test(x, thi + 1, INF), psub(x, num(w)), r)
                return r
            return ite(inr, x, atom(term("trunc", x, tty, lo=tlo, hi=thi)))
        return map1(f, v)

    def binop(self, op, a, b, ty, st=None):
        k = self.ty[ty]["k"]
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if k in ("int", "char", "bool") and is_scalar(a) and is_scalar(b):
            if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if base == "Eq":
                    return from_pred(self.ieq(a, b))
                if base == "Ne":
                    return from_pred(p_not(self.ieq(a, b)))
                if base == "Le":
                    return from_pred(self.ile(a, b))
                if base == "Ge":
                    return from_pred(self.ile(b, a))
                if base == "Lt":
                    return from_pred(p_not(self.ile(b, a)))
                return from_pred(p_not(self.ile(a, b)))
            if base == "Cmp":
                lt, e = p_not(self.ile(b, a)), self.ieq(a, b)
                return en(ite(lt, num(0), ite(e, num(1), num(2))), {0: (), 1: (), 2: ()})
            if k == "bool" and base in ("BitAnd", "BitOr", "BitXor"):
                pa, pb = to_pred(a), to_pred(b)
                if base == "BitAnd":
                    return from_pred(p_and(pa, pb))
                if base == "BitOr":
                    return from_pred(p_or(pa, pb))
                return from_pred(ite(pa, p_not(pb), pb))
            if base in ("Add", "Sub", "Mul"):
                r = {"Add": self.iadd, "Sub": self.isub, "Mul": self.imul}[base](a, b)
                if op.endswith("WithOverflow"):
                    lo, hi = self.ty.range(ty)
                    ov = map1(lambda x: FALSE if x is UNDEF else p_not(test(x, lo, hi)), r)
                    return agg("tuple", (r, from_pred(ov)))
                return r
            lo, hi = self.ty.range(ty)

            def g(x, y):
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                if x.is_const() and y.is_const():
                    m, n = x.const, y.const
                    if base == "Div" and n:
                        q = abs(m) // abs(n)
                        return num(q if (m < 0) == (n < 0) else -q)
                    if base == "Rem" and n:
                        q = abs(m) % abs(n)
                        return num(-q if m < 0 else q)
                    if base in ("BitAnd", "BitOr", "BitXor"):
                        return num({"BitAnd": m & n, "BitOr": m | n, "BitXor": m ^ n}[base])
                    if base in ("Shl", "Shr") and 0 <= n < 128:
                        if base == "Shr":
                            return num(m >> n)
                        w = hi - lo + 1
                        return num(((m << n) - lo) % w + lo)
                xl, xh = bounds(x)
                if base == "Div" and y.is_const() and y.const == 1:
                    return x
                if base == "Div" and y.is_const() and y.const > 0 and lo >= 0:
                    return floordiv(x, y.const)
                if base == "Div" and y.is_const() and y.const > 0:
                    l2, h2 = lo, hi
                    if xl >= 0:
                        l2, h2 = 0, (xh // y.const if xh != INF else hi)
                    else:
                        l2, h2 = -((-max(xl, lo)) // y.const), min(xh, hi) // y.const if min(xh, hi) >= 0 else 0
                    return atom(term("div", x, y, lo=l2, hi=h2))
                if base == "Shr" and y.is_const() and xl >= 0:
                    return atom(term("div", x, num(1 << y.const), lo=0, hi=min(xh, hi) >> y.const))
                if base == "Rem" and y.is_const() and y.const > 0:
                    return atom(term("rem", x, y, lo=0 if xl >= 0 else -(y.const - 1), hi=y.const - 1))
                if base == "BitAnd" and y.is_const() and y.const > 0 and ((y.const + 1) & y.const) == 0 and xl >= 0:
                    return atom(term("rem", x, num(y.const + 1), lo=0, hi=y.const))
                if base == "Shl" and y.is_const():
                    r = pscale(x, 1 << y.const)
                    l2, h2 = bounds(r)
                    if l2 >= lo and h2 <= hi:
                        return r
                aa = (x, y)
                if base in ("BitAnd", "BitOr", "BitXor") and x.id > y.id:
                    aa = (y, x)
                return atom(term(base.lower(), *aa, lo=lo, hi=hi))
            r = map2(g, a, b)
            if op.endswith("WithOverflow"):
                return agg("tuple", (r, self.app("ovf_" + base, (a, b), self.ty.by_str.get("bool"))))
            return r
        if k == "float":
            if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                x, y, o, neg = a, b, base, False
                if o == "Ne":
                    o, neg = "Eq", True
                if o in ("Gt", "Ge"):
                    x, y, o = y, x, {"Gt": "Lt", "Ge": "Le"}[o]
                r = map2(lambda u, w: test(atom(term("f" + o.lower(), u, w, lo=0, hi=1)), 1, 1), x, y)
                return from_pred(p_not(r) if neg else r)

            def h(x, y):
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                if base in ("Add", "Mul") and x.id > y.id:
                    x, y = y, x
                return term("f" + base.lower(), x, y, ty=ty)
            return map2(h, a, b)
        # pointers and the rest
        if base in ("Eq", "Ne") and is_scalar(a) and is_scalar(b):
            r = map2(lambda x, y: TRUE if x is y else test(atom(term("ptreq", *sorted((x, y), key=lambda z: z.id), lo=0, hi=1)), 1, 1), a, b)
            return from_pred(r if base == "Eq" else p_not(r))
        bt = self.ty.by_str.get("bool")
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return self.app("cmp_" + base, (a, b), bt)
        return self.app("op_" + base, (a, b), ty)

    # ------------------------------------------------------------ constants
    def const(self, c):
        ty = c["ty"]
        return self.cval(c["v"], ty, c)

    def cval(self, v, ty, c=None):
        k = self.ty[ty]
        op = v[0]
        if k["k"] == "fndef":
            return fnv(k["callee"], k["path"])
        if op == "int":
            if k["k"] == "float":
                b = int(v[1])
                f = struct.unpack("<d", struct.pack("<Q", b))[0] if k["bits"] == 64 else struct.unpack("<f", struct.pack("<I", b))[0]
                return term("fconst", repr(f), ty=ty)
            return num(int(v[1]))
        if op == "str":
            return term("str", v[1], ty=ty)
        if op == "zst":
            if k["k"] == "closure" or k["k"] == "tuple":
                return agg("tuple" if k["k"] == "tuple" else "closure", ())
            return agg(k.get("path", "zst"), ())
        if op == "agg":
            vi, fs = v[1], v[2]
            if self.ty.is_enum(ty):
                ft = self.ty.fields(ty, vi)
                return en(num(vi), {vi: tuple(self.cval(x, t[1]) for x, t in zip(fs, ft))})
            if k["k"] == "array":
                return agg("array", [self.cval(x, k["elem"]) for x in fs])
            ft = self.ty.fields(ty, None)
            if self.ty.is_wrapper(ty) and fs:
                return self.cval(fs[0], ft[0][1])
            return agg(k.get("path", "tuple"), [self.cval(x, t[1]) for x, t in zip(fs, ft)])
        if op == "ref":
            pty = self.ty.pointee(ty)
            inner = self.cval(v[1], pty)
            r = place(("K", inner))
            self.root_ty[r.root] = pty
            if isinstance(inner, T) and inner.op == "str":
                return refv(r)
            return refv(r)
        if op == "static":
            pty = self.ty.pointee(ty)
            if v[2] is not None:
                inner = self.cval(v[2], pty)
                r = place(("K", inner))
                self.root_ty[r.root] = pty
                return refv(r)
            return term("static", v[1], ty=ty)
        if op == "emptyslice":
            r = place(("K", agg("array", ())))
            return self.mkfat(refv(r), ZERO, ZERO)
        if op == "refslice":
            e = self.ty.elem(self.ty.pointee(ty))
            arr = agg("array", [self.cval(x, e) for x in v[1][2]])
            return self.mkfat(refv(place(("K", arr))), ZERO, num(len(arr.kids)))
        if op == "opaque":
            if k["k"] == "ref" and self.ty[k["to"]]["k"] == "array" and self.ty[k["to"]]["len"] == 0:
                r = place(("K", agg("array", ())))
                self.root_ty[r.root] = k["to"]
                return refv(r)
            if k["k"] == "tuple" and not k["tys"]:
                return UNIT
            return self.app("const", (str(v[1]),), ty)
        raise Imprecise(f"constant {v!r}")


class Analysis(Engine):
    """Analysis of one root."""

    def __init__(self, prog, models, root_key, args=None, max_cps=400):
        super().__init__(prog, models)
        self.g = Graph(prog, root_key)
        self.body = prog.bodies[root_key]
        self.cps = {}
        self.cplist = []
        self.max_cps = max_cps
        self.args = args
        self.split = []
        self.optional = set()
        self.fuel = FUEL
        self.unknown = {}
        self.final = False

    # ------------------------------------------------------------ places
    def lroot(self, frame, l):
        r = ("L", frame.id, l)
        self.root_ty.setdefault(r, frame.body["locals"][l])
        return r

    def lval(self, st, frame, p):
        """[(guard, Place)], type, and fat range if the place is a slice deref."""
        l, proj = p
        ty = frame.body["locals"][l]
        cur = [(TRUE, place(self.lroot(frame, l)))]
        rng = None
        vi = None
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.read_lv(st, cur, ty)
                pty = self.ty.pointee(ty)
                if pty is None:
                    raise Imprecise(f"deref of {self.ty.name(ty)}")
                if self.ty[pty]["k"] == "slice":
                    f = self.fat(con_val(v, st.p), ty)
                    rng = (f[1], f[2])
                    cur = self.targets(f[0], pty, st.p)
                else:
                    rng = None
                    cur = self.targets(v, pty, st.p)
                ty = pty
                vi = None
            elif k == "f":
                if self.ty.is_wrapper(ty):
                    if e[1] == 0:
                        ty = e[2]
                    else:
                        cur = [(g, place(("K", UNIT))) for g, _ in cur[:1]]
                        ty = e[2]
                    vi = None
                    continue
                el = ("f", vi, e[1], e[2])
                cur = [(g, place(pl.root, pl.path + (el,))) for g, pl in cur]
                # keep the type of the base for enum access
                ty = e[2]
                vi = None
            elif k == "d":
                vi = e[1]
            elif k in ("i", "ci"):
                ety = self.ty.elem(ty)
                if k == "i":
                    idx = self.read(st, place(self.lroot(frame, e[1])))
                    idx = constrain(idx, st.p)
                elif e[3]:
                    ln = rng[1] if rng else num(self.ty[ty]["len"])
                    idx = self.isub(ln, num(e[1]))
                else:
                    idx = num(e[1])
                if rng:
                    idx = self.iadd(rng[0], idx)
                new = []
                for g, pl in cur:
                    for x, gx in leaves(idx, TRUE):
                        gg = p_and(g, gx)
                        if gg is not FALSE and x is not UNDEF:
                            new.append((gg, place(pl.root, pl.path + (("e", x, ety),))))
                cur = new
                ty = ety
                rng = None
                vi = None
            elif k == "ss":
                ln = rng[1] if rng else num(self.ty[ty]["len"])
                st0 = rng[0] if rng else ZERO
                to = self.isub(ln, num(e[2])) if e[3] else num(e[2])
                rng = (self.iadd(st0, num(e[1])), self.isub(to, num(e[1])))
            elif k == "oc":
                pass
            else:
                raise Imprecise(f"projection {e}")
        return cur, ty, rng

    def operand(self, st, frame, o):
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rc":
            return ZERO
        lv, ty, rng = self.lval(st, frame, o[1])
        v = self.read_lv(st, lv, ty)
        v = con_val(v, st.p)
        if o[0] == "m" and not o[1][1]:
            l = o[1][0]
            if l in frame.body["_addr"]:
                st.s.pop(self.lroot(frame, l), None)
        return v

    def op_ty(self, frame, o):
        if o[0] == "k":
            return o[1]["ty"]
        return self.place_ty(frame, o[1])

    def place_ty(self, frame, p):
        ty = frame.body["locals"][p[0]]
        for e in p[1]:
            if e[0] == "*":
                ty = self.ty.pointee(ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.ty.elem(ty)
        return ty

    # ------------------------------------------------------------ statements
    def rvalue(self, st, frame, r, n):
        k = r[0]
        if k == "use":
            return self.operand(st, frame, r[1])
        if k in ("ref", "raw"):
            lv, ty, rng = self.lval(st, frame, r[2])
            if self.ty[ty]["k"] == "slice" and rng:
                return self.mkfat(self.ref_to(lv), rng[0], rng[1])
            if self.ty[ty]["k"] == "str" or self.ty[ty]["k"] == "dyn":
                return self.ref_to(lv)
            return self.ref_to(lv)
        if k == "cast":
            kind = r[1]
            v = self.operand(st, frame, r[2])
            fty, tty = r[3], r[4]
            if kind == "IntToInt":
                return self.cast_int(v, fty, tty)
            if kind == "IntToFloat":
                return map1(lambda x: x if x is UNDEF else term("i2f", x, ty=tty), v)
            if kind in ("FloatToInt", "FloatToFloat"):
                return map1(lambda x: x if x is UNDEF else self.app(kind.lower(), (x,), tty), v)
            if "Unsize" in kind:
                fp = self.ty.pointee(fty)
                if fp is not None and self.ty[fp]["k"] == "array" and self.is_fat(tty):
                    return self.mkfat(v, ZERO, num(self.ty[fp]["len"]) if self.ty[fp]["len"] is not None else atom(term("arrlen", fp, lo=0, hi=1 << 62)))
                return v
            if kind in ("PtrToPtr", "Subtype") or "MutToConst" in kind or "ReifyFn" in kind or "ClosureFn" in kind or kind == "FnPtrToPtr":
                return v
            if "Transmute" in kind:
                m = self.models.transmute(self, v, fty, tty)
                if m is not None:
                    return m
                if self.ty.pointee(fty) is not None and self.ty.pointee(tty) is not None:
                    return v
                if fty == tty:
                    return v
                if self.ty.pointee(fty) is not None and self.ty[tty]["k"] == "int":
                    return self.app("addr", (v,), tty, lo=1)  # references and boxes are not null
                return self.app("transmute", (v,), tty)
            return self.app("cast_" + kind, (v,), tty)
        if k == "bin":
            a = self.operand(st, frame, r[2])
            b = self.operand(st, frame, r[3])
            return self.binop(r[1], a, b, r[4])
        if k == "un":
            v = self.operand(st, frame, r[2])
            ty = r[3]
            if r[1] == "Not":
                if self.ty[ty]["k"] == "bool":
                    return from_pred(p_not(to_pred(v)))
                if not self.ty[ty].get("signed"):
                    hi = self.ty.range(ty)[1]
                    return map1(lambda x: psub(num(hi), x), v)
                return map1(lambda x: psub(num(-1), x), v)
            if r[1] == "Neg":
                if self.ty[ty]["k"] == "float":
                    return map1(lambda x: term("fneg", x, ty=ty), v)
                return map1(lambda x: x if x is UNDEF else pscale(x, -1), v)
            if r[1] == "PtrMetadata":
                if isinstance(v, Agg) and v.tag == "fat":
                    return v.kids[2]
                e = self.expand(v, ty)
                if isinstance(e, Agg) and e.tag == "fat":
                    return e.kids[2]
                return map1(lambda x: atom(term("meta", x, lo=0, hi=(1 << 63) - 1)), v)
            raise Imprecise(f"unary {r[1]}")
        if k == "disc":
            lv, ty, _ = self.lval(st, frame, r[1])
            v = con_val(self.read_lv(st, lv, ty), st.p)
            d = self.disc(v, ty)
            return constrain(self.discr_value(d, ty), st.p)
        if k == "agg":
            kind = r[1]
            vs = [self.operand(st, frame, o) for o in r[2]]
            if kind[0] == "array":
                return agg("array", vs)
            if kind[0] == "tuple":
                return agg("tuple", vs)
            if kind[0] == "closure":
                return agg("closure", vs)
            if kind[0] == "adt":
                return self.construct(kind[1], kind[2], vs)
            if kind[0] == "rawptr":
                pty = kind[1]
                if self.ty[pty]["k"] == "slice":
                    return self.mkfat(vs[0], ZERO, vs[1])
                return vs[0]
            raise Imprecise(f"aggregate {kind}")
        if k == "repeat":
            v = self.operand(st, frame, r[1])
            if r[2] is not None and r[2] <= 16:
                return agg("array", [v] * r[2])
            return term("repeat", v, r[2])
        if k == "tls":
            return term("tls", r[1])
        raise Imprecise(f"rvalue {r[0]} {r[1:]}")

    def discr_value(self, d, ty):
        vs = self.ty[ty]["variants"]
        dv = [int(v["discr"]) for v in vs]
        # discriminants are exported as unsigned bit patterns
        if dv == list(range(len(vs))):
            return d

        def f(x):
            if x is UNDEF:
                return x
            if x.is_const():
                return num(dv[x.const])
            r = num(dv[-1])
            for i in range(len(dv) - 2, -1, -1):
                r = ite(eq(x, num(i)), num(dv[i]), r)
            return r
        return map1(f, d)

    def assign(self, st, frame, p, v):
        lv, ty, rng = self.lval(st, frame, p)
        self.write_lv(st, lv, v)

    # ------------------------------------------------------------ region execution
    def event(self, kind, name, args, st, n, res=None, callee=None, extra=None):
        if not self.final:
            return
        e = Event()
        e.kind, e.name, e.args, e.pred, e.cp, e.node = kind, name, args, st.p, self.cur.id, n.id
        e.frame, e.sp, e.res, e.callee, e.extra, e.rpo = n.frame, n.sp, res, callee, extra, n.rpo
        e.store = dict(st.s) if kind == "obs" else None
        self.events.append(e)

    def merge_states(self, items):
        items = [x for x in items if x.p is not FALSE]
        if not items:
            return None
        st = items[0]
        if len(items) == 1:
            return st
        p, s = st.p, st.s
        for o in items[1:]:
            q = p_or(p, o.p)
            sel = constrain(p, q)
            if sel is TRUE and o.p is not FALSE:
                # p covers q: overlapping guards should not happen; keep both by selecting on o
                sel = p_not(constrain(o.p, q))
            ns = {}
            for r in s.keys() | o.s.keys():
                a, b = s.get(r), o.s.get(r)
                if a is None:
                    a = self.root_default(r)
                if b is None:
                    b = self.root_default(r)
                if r[0] == "L" and (a is UNDEF and b is UNDEF):
                    continue
                ns[r] = a if a is b else self.merge(sel, a, b, self.root_type(r))
            p, s = q, ns
        return State(p, s)

    def run_region(self, cp):
        """Process all blocks reachable from cp without crossing another cut point."""
        g = self.g
        self.cur = cp
        pend = {}
        heap = []
        arrivals = []
        start = cp.node
        st0 = State(cp.pred, dict(cp.store))
        self.step(g.nodes[start], st0, pend, heap, arrivals, first=True)
        while heap:
            rpo, nid = heapq.heappop(heap)
            items = pend.pop(nid, None)
            if items is None:
                continue
            st = self.merge_states(items)
            if st is None:
                continue
            self.step(g.nodes[nid], State(st.p, dict(st.s)), pend, heap, arrivals)
        return arrivals

    def push(self, n, st, pend, heap, arrivals):
        if st.p is FALSE:
            return
        if n.header:
            arrivals.append((n, st))
            return
        if n.id not in pend:
            pend[n.id] = []
            heapq.heappush(heap, (n.rpo, n.id))
        pend[n.id].append(st)

    def prune(self, n, st):
        """Drop locals of the node's frame that are dead at its start."""
        fid = n.frame.id
        addr = n.frame.body["_addr"]
        live = n.live
        dead = [r for r in st.s if r[0] == "L" and r[1] == fid and r[2] not in live and r[2] not in addr]
        for r in dead:
            del st.s[r]

    def collect(self, st):
        """Drop heap allocations that nothing refers to any more."""
        heap = {r for r in st.s if r[0] == "H"}
        if not heap:
            return
        live, todo = set(), [r for r in st.s if r[0] != "H"]
        while todo:
            for r in self.heap_refs(st.s[todo.pop()]):
                if r in heap and r not in live:
                    live.add(r)
                    todo.append(r)
        for r in heap - live:
            del st.s[r]

    def heap_refs(self, v):
        """Heap roots that occur in a value"""
        memo = self.heap_memo
        r = memo.get(v.id)
        if r is not None:
            return r
        out, seen, todo = set(), set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            i = getattr(x, "id", None)
            if i is None or i in seen:
                continue
            seen.add(i)
            if isinstance(x, T):
                todo.extend(x.args)
            elif isinstance(x, Poly):
                for m, _ in x.terms:
                    todo.extend(m)
            elif isinstance(x, Node):
                todo.append(x.var)
                todo.extend(x.kids)
            elif isinstance(x, Agg):
                todo.extend(x.kids)
            elif isinstance(x, En):
                todo.append(x.d)
                for _, k in x.vs:
                    todo.extend(k)
            elif isinstance(x, RefV):
                todo.append(x.place)
            elif isinstance(x, Place):
                if x.root[0] == "H":
                    out.add(x.root)
                todo.extend(y for y in x.root if not isinstance(y, (int, str)) and y is not None)
                todo.extend(y for e in x.path for y in e if hasattr(y, "id"))
        memo[v.id] = frozenset(out)
        return memo[v.id]

    def step(self, n, st, pend, heap, arrivals, first=False):
        self.fuel -= 1
        if self.fuel < 0:
            raise Imprecise("analysis budget exceeded")
        self.prune(n, st)
        f = n.frame
        try:
            for s in n.stmts:
                if s[0] == "=":
                    self.assign(st, f, s[1], self.rvalue(st, f, s[2], n))
                elif s[0] == "dead":
                    st.s.pop(self.lroot(f, s[1]), None)
                elif s[0] == "setd":
                    lv, ty, _ = self.lval(st, f, s[1])
                    v = self.read_lv(st, lv, ty)
                    v = self.expand(v, ty) if v is not UNDEF else en(UNDEF, {})
                    vs = dict(v.vs)
                    vs.setdefault(s[2], ())
                    self.write_lv(st, lv, en(num(s[2]), vs))
                elif s[0] == "assume":
                    st.p = p_and(st.p, to_pred(self.operand(st, f, s[1])))
                elif s[0] == "other":
                    pass
            self.terminator(n, st, pend, heap, arrivals)
        except Imprecise as e:
            raise Imprecise(f"{e} [in {f.body['path']} bb{n.bb} {n.sp}]") from None

    def terminator(self, n, st, pend, heap, arrivals):
        g = self.g
        t = n.term
        f = n.frame
        k = t["k"]
        if k in ("goto", "drop"):
            if k == "drop":
                lv, ty, _ = self.lval(st, f, t["p"])
                if not t["p"][1]:
                    st.s.pop(self.lroot(f, t["p"][0]), None)
            self.push(g.nodes[n.succ[0]], st, pend, heap, arrivals)
        elif k == "switch":
            d = constrain(self.operand(st, f, t["d"]), st.p)
            rest = st.p
            by = {}
            ty = t["ty"]
            signed = self.ty[ty].get("signed")
            bits = self.ty[ty].get("bits", 8)
            for v, b in t["v"]:
                v = int(v)
                if signed and v >= 1 << (bits - 1):
                    v -= 1 << bits
                q = map1(lambda x: FALSE if x is UNDEF else eq(x, num(v)), d)
                q = p_and(st.p, q)
                by[b] = p_or(by.get(b, FALSE), q)
                rest = p_and(rest, p_not(q))
            e = t["else"]
            by[e] = p_or(by.get(e, FALSE), rest)
            for b, q in by.items():
                if q is not FALSE:
                    self.push(f.nodes[b], State(q, dict(st.s)), pend, heap, arrivals)
        elif k == "assert":
            if t["msg"][0] == "other" and ("PointerDereference" in t["msg"][1]):
                # checks of pointers that safe code cannot make dangling
                self.push(g.nodes[n.succ[0]], st, pend, heap, arrivals)
                return
            c = to_pred(self.operand(st, f, t["c"]))
            if not t["exp"]:
                c = p_not(c)
            if t["msg"][0] == "bounds" and isinstance(t["msg"][2], list):
                # an index that wrapped around below zero is out of bounds
                o = t["msg"][2]
                i = self.operand(State(st.p, dict(st.s)), f, o if o[0] != "m" else ["c", o[1]])
                if is_scalar(i):
                    c = p_and(c, map1(lambda x: FALSE if x is UNDEF else TRUE if not isinstance(x, Poly) else test(x, 0, INF), i))
            bad = p_and(st.p, p_not(c))
            if bad is not FALSE:
                info = []
                if self.final:
                    for o in t["msg"][1:]:
                        if isinstance(o, list) and o and o[0] in ("c", "m", "k"):
                            info.append(self.operand(State(st.p, dict(st.s)), f, o if o[0] != "m" else ["c", o[1]]))
                b = State(bad, st.s)
                self.event("panic", t["msg"][0], tuple(info), b, n, extra=t["msg"])
            if not t["msg"][0].startswith("overflow"):
                st.p = p_and(st.p, c)
            if st.p is not FALSE:
                self.push(g.nodes[n.succ[0]], st, pend, heap, arrivals)
        elif k == "enter":
            self.enter(n, st, pend, heap, arrivals)
        elif k == "leave":
            v = st.s.get(("L", f.id, 0), UNDEF)
            if v is UNDEF and t["dty"] is not None and self.ty[t["dty"]]["k"] == "tuple" and not self.ty[t["dty"]]["tys"]:
                v = UNIT
            for r in [r for r in st.s if r[0] in ("L", "tmp") and r[1] == f.id]:
                del st.s[r]
            if t["to"] is not None:
                self.assign(st, t["caller"], t["dst"], con_val(v, st.p))
                self.push(g.nodes[t["to"]], st, pend, heap, arrivals)
        elif k == "call":
            self.call(n, st, pend, heap, arrivals)
        elif k == "ret":
            v = st.s.get(("L", f.id, 0), UNDEF)
            if v is UNDEF:
                v = UNIT
            self.rets.append((st.p, con_val(v, st.p), st.s))
        elif k in ("unreachable", "resume"):
            pass
        else:
            raise Imprecise(f"terminator {k} {t.get('dbg')}")

    def enter(self, n, st, pend, heap, arrivals):
        t = n.term
        f = n.frame
        cf = t["frame"]
        callee = t["f"]
        args = [self.operand(st, f, a) for a in t["a"]]
        if callee.get("kind") == "fnptr_shim":
            # (fn value, tuple of arguments)
            tup = args[1]
            args = list(self.expand(tup, t["at"][1]).kids) if len(args) > 1 else []
        elif callee.get("closure") or callee.get("kind") == "closure_once":
            body = cf.body
            slf = args[0]
            tup = args[1]
            kids = list(self.expand(tup, t["at"][1]).kids)
            want_ref = self.ty[body["locals"][1]]["k"] == "ref"
            have_ref = self.ty[t["at"][0]]["k"] == "ref"
            if want_ref and not have_ref:
                r = ("tmp", cf.id, 0)
                self.root_ty[r] = t["at"][0]
                st.s[r] = slf
                slf = refv(place(r))
            elif have_ref and not want_ref:
                lv = self.targets(slf, self.ty.pointee(t["at"][0]), st.p)
                slf = self.read_lv(st, lv, self.ty.pointee(t["at"][0]))
            args = [slf] + kids
        elif cf.body.get("spread") is not None and len(args) == cf.body["argc"]:
            pass
        # drop caller locals that are dead after the call
        if t["to"] is not None:
            after = f.nodes[t["to"]].live
            addr = f.body["_addr"]
            for r in [r for r in st.s if r[0] == "L" and r[1] == f.id and r[2] not in after and r[2] not in addr]:
                if not any(r[2] == p for p in [t["dst"][0]]) or not t["dst"][1]:
                    del st.s[r]
        for i, a in enumerate(args):
            st.s[self.lroot(cf, i + 1)] = a
        self.push(self.g.nodes[t["entry"]], st, pend, heap, arrivals)

    def call(self, n, st, pend, heap, arrivals):
        t = n.term
        f = n.frame
        callee = t["f"]
        if callee.get("kind") == "fnptr_shim" and callee.get("target"):
            args = [self.operand(st, f, a) for a in t["a"]]
            tup = self.expand(args[1], t["at"][1])
            at = self.ty[t["at"][1]]["tys"]
            args, callee = list(tup.kids), callee["target"]
        else:
            args = [self.operand(st, f, a) for a in t["a"]]
            at = t["at"]
        c = Call(self, n, st, callee, args, at, t["dty"])
        m = self.models.fallback(callee)
        if callee.get("ctor") is not None and self.ty[t["dty"]]["k"] == "adt":
            r = self.construct(t["dty"], callee["ctor"], args)
        elif m is not None:
            r = m(c)
        else:
            r = c.unknown()
        if t["to"] is None or r is None and t["to"] is None:
            return
        if st.p is FALSE:
            return
        if r is None:
            raise Imprecise(f"model for {c.name} gave no value")
        self.assign(st, f, t["dst"], r)
        self.push(self.g.nodes[n.succ[0]], st, pend, heap, arrivals)

    def construct(self, ty, vi, vs):
        t = self.ty[ty]
        if t["kind"] == "enum":
            return en(num(vi), {vi: tuple(vs)})
        if self.ty.is_wrapper(ty):
            return vs[0]
        return agg(t["path"], vs)

    # ------------------------------------------------------------ cut points
    def is_discrete(self, v):
        """Only constant leaves, and not simply a boolean read from the data."""
        if v is None or not is_scalar(v):
            return False
        if isinstance(v, Node):
            ts = v.var.terms
            if len(ts) == 1 and len(ts[0][0]) == 1:
                t = ts[0][0][0]
                if t.ty is not None and self.ty[t.ty]["k"] == "bool" and not any(isinstance(k, Node) for k in v.kids):
                    return False
        return all(isinstance(l, Poly) and l.is_const() for l, _ in leaves(v) if l is not UNDEF)

    def split_slots(self, st, node):
        """[(key, diagram)] of the discrete slots that are kept apart at this loop head."""
        out = []
        for nid, key in self.split:
            if nid != node.id:
                continue
            v = self.getter(key)(st.s)
            if v is None or v is UNDEF or not is_scalar(v):
                continue
            if all(isinstance(l, Poly) and l.is_const() or l is UNDEF for l, _ in leaves(v)):
                out.append((key, v))
        return out

    def arrive(self, n, st, src):
        """Split an arriving state by its discrete slots and join it into the cut points."""
        self.prune(n, st)
        p = st.p
        st = State(p, {r: con_val(v, p) for r, v in st.s.items()})
        self.collect(st)
        parts = [(p, ())]
        for key, d in self.split_slots(st, n):
            np = []
            for q, sig in parts:
                ls = leaves(constrain(d, q), q)
                for l, g in ls:
                    if g is FALSE:
                        continue
                    np.append((g, sig + ((key, l.const if l is not UNDEF else None),)))
            parts = np
            if len(parts) > 64:
                raise Imprecise(f"too many discrete states at {n}")
        for q, sig in parts:
            s2 = State(q, {r: con_val(v, q) for r, v in st.s.items()})
            self.join(n, sig, s2, src)

    def join(self, n, sig, st, src):
        k = (n.id, sig)
        cp = self.cps.get(k)
        if cp is None:
            if len(self.cplist) >= self.max_cps:
                raise Imprecise("too many cut points")
            cp = CP(len(self.cplist), n.id, sig)
            self.cps[k] = cp
            self.cplist.append(cp)
        cp.srcs.add(src.id)
        if self.final:
            self.verify_arrival(cp, st)
            e = Edge()
            e.src, e.dst, e.pred, e.store, e.ret = src.id, cp.id, st.p, st.s, None
            e.upd = {}
            for slot, (mu, getter) in cp.mus.items():
                e.upd[slot] = getter(st.s)
            self.edges.append(e)
            return
        own = cp.id
        changed = False
        if cp.store is None:
            cp.store = {}
            for r, v in st.s.items():
                cp.store[r] = self.gen(cp, (r,), None, v, st.p, self.root_type(r), own)
            changed = True
        else:
            for r in list(cp.store.keys() | st.s.keys()):
                a, b = cp.store.get(r), st.s.get(r)
                if a is None:
                    a = self.root_default(r)
                if b is None:
                    b = self.root_default(r)
                if a is UNDEF and b is UNDEF:
                    continue
                v = self.gen(cp, (r,), a, b, st.p, self.root_type(r), own)
                if v is not cp.store.get(r):
                    cp.store[r] = v
                    changed = True
        # facts that survive: those not about this cut point's own symbols
        q = self.outer_facts(cp, st)
        np = p_or(cp.pred, q)
        if np is not cp.pred:
            cp.pred = np
            changed = True
        if changed:
            cp.dirty = True
            cp.changed = True

    def order_of(self, cp):
        return (self.g.nodes[cp.node].rpo, cp.id)

    def outer_facts(self, cp, st):
        """The part of a state's predicate that does not speak about cp's own symbols, those of later cut points, or
        symbols that the state does not contain any more."""
        me = self.order_of(cp)
        late = {c.id for c in self.cplist if self.order_of(c) >= me}
        keep = set()
        for v in st.s.values():
            keep |= v.syms
        return exists(st.p, lambda var: not late.isdisjoint(var.syms) or not keep.issuperset(var.syms))

    def verify_arrival(self, cp, st):
        """The template of a cut point covers an arriving state (checked after stabilisation)."""
        if cp.store is None:
            raise Imprecise("arrival at a cut point without template")
        n = len(cp.mus)
        for r in cp.store.keys() | st.s.keys():
            a, b = cp.store.get(r), st.s.get(r)
            a = self.root_default(r) if a is None else a
            b = self.root_default(r) if b is None else b
            if a is UNDEF and b is UNDEF:
                continue
            if self.gen(cp, (r,), a, b, st.p, self.root_type(r), cp.id) is not a:
                raise Imprecise(f"unstable template at {self.g.nodes[cp.node]} ({r})")
        if len(cp.mus) != n:
            raise Imprecise("unstable template")
        q = self.outer_facts(cp, st)
        if p_or(cp.pred, q) is not cp.pred:
            raise Imprecise("unstable facts")

    def reset_after(self, c):
        """c's template changed after it was analysed: what later cut points learnt from it is stale."""
        me = self.order_of(c)
        for d in self.cplist:
            if c.id in d.srcs and self.order_of(d) > me:
                d.store, d.pred, d.mus = None, FALSE, {}
                d.changed = True
                d.dirty = False
                for i in d.srcs:
                    if i != c.id and i != d.id:
                        self.cplist[i].dirty = True
                d.srcs = set()

    def gen(self, cp, key, a, b, p, ty, own):
        """Generalise template a (None: nothing yet) with the arriving value b."""
        if a is None or a is UNDEF:
            if b is UNDEF:
                return UNDEF
            if isinstance(b, (Agg, En)):
                if own in b.syms:
                    return self.gen_struct(cp, key, None, b, p, ty, own)
                return b
            if own in b.syms:
                return self.mu(cp, key, b, ty)
            return b
        if b is UNDEF or a is b:
            if a is b and own in b.syms and not self.has_mu(cp, key):
                if isinstance(b, (Agg, En)):
                    return self.gen_struct(cp, key, a, b, p, ty, own)
                return self.mu(cp, key, b, ty)
            return a
        if isinstance(a, (Agg, En)) != isinstance(b, (Agg, En)):
            t = ty if ty is not None else self.find_ty(a if is_scalar(a) else b)
            if self.has_mu(cp, key):
                return a
            if is_scalar(a):
                a = self.expand_like(a, b, t)
            else:
                b = self.expand_like(b, a, t)
        if isinstance(a, (Agg, En)):
            return self.gen_struct(cp, key, a, b, p, ty, own)
        if self.has_mu(cp, key):
            return a
        if own not in b.syms and self.same(a, b, p):
            return a
        return self.mu(cp, key, a, ty, b)

    def same(self, a, b, p):
        if a is b:
            return True
        d = map2(lambda x, y: FALSE if x is y else TRUE, a, b)
        return p_and(p, d) is FALSE

    def has_mu(self, cp, key):
        return key in cp.mus

    def gen_struct(self, cp, key, a, b, p, ty, own):
        if isinstance(b, Agg):
            if a is not None and (a.tag != b.tag or len(a.kids) != len(b.kids)):
                m = self.models.unify(self, a, b, ty)
                if m is None:
                    raise Imprecise(f"shapes {a!r} / {b!r} at loop head")
                a, b = m
            if b.tag == "fat":
                ra = a.kids[0] if a is not None else None
                rb = b.kids[0]
                if (ra is None and own in rb.syms) or (ra is not None and (own in rb.syms or not self.same(ra, rb, p))) or self.has_mu(cp, key + (0,)):
                    # another container: forget which
                    return self.mu_fat(cp, key, a, b, ty)
            tys = self.kid_types(b, ty)
            return agg(b.tag, [self.gen(cp, key + (i,), None if a is None else a.kids[i], y, p, tys[i], own) for i, y in enumerate(b.kids)])
        vs = dict(a.vs) if a is not None else {}
        for vi, kids in b.vs:
            fs = self.ty.fields(ty, vi) if ty is not None and self.ty.is_enum(ty) else None
            ak = vs.get(vi)
            if ak is None:
                ak = [None] * len(kids)
            q = p
            if is_scalar(b.d):
                q = p_and(p, map1(lambda x: FALSE if x is UNDEF else eq(x, num(vi)), b.d))
                if q is FALSE:
                    continue
            vs[vi] = tuple(self.gen(cp, key + (("v", vi, i),), ak[i], x, q, fs[i][1] if fs and i < len(fs) else None, own) for i, x in enumerate(kids))
        d = self.gen(cp, key + ("d",), a.d if a is not None else None, b.d, p, ("disc", ty), own)
        return en(d, vs)

    def kid_types(self, b, ty):
        if b.tag == "fat":
            return [None, ("len",), ("len",)]
        m = self.models.kid_types(self, b, ty)
        if m is not None:
            return m
        if ty is not None and not isinstance(ty, tuple):
            fs = self.ty.fields(ty) if self.ty[ty]["k"] in ("adt", "tuple", "closure") else None
            if fs is not None and len(fs) == len(b.kids):
                return [x[1] for x in fs]
            if self.ty[ty]["k"] == "array":
                return [self.ty[ty]["elem"]] * len(b.kids)
        return [None] * len(b.kids)

    def slot_name(self, key):
        r = key[0]
        if r[0] == "L":
            f = self.g.frames[r[1]]
            nm = None
            for l, s in f.body["names"]:
                if l == r[2]:
                    nm = s
            base = f"{f.body['path'].split('::')[-1]}.{nm or '_' + str(r[2])}"
        else:
            base = f"{r[0]}:{show(r[1]) if not isinstance(r[1], (int, str)) else r[1]}"
        return base + "".join("." + (str(x) if not isinstance(x, tuple) else "/".join(map(str, x[1:]))) for x in key[1:])

    def getter(self, key):
        def get(store):
            v = store.get(key[0])
            if v is None:
                v = self.root_default(key[0])
            for e in key[1:]:
                if v is UNDEF:
                    return UNDEF
                if e == "d":
                    v = v.d if isinstance(v, En) else self.disc(v, self.find_ty(v))
                elif isinstance(e, tuple):
                    if is_scalar(v):
                        v = self.expand(v, self.find_ty(v))
                    k = v.payload(e[1])
                    if k is None:
                        return UNDEF
                    v = k[e[2]]
                else:
                    if is_scalar(v):
                        v = self.expand(v, self.find_ty(v))
                    v = v.kids[e]
            return v
        return get

    def option_int(self, ty):
        """Is this the state of an Option<number>?"""
        if not isinstance(ty, tuple) or ty[1] is None or isinstance(ty[1], tuple):
            return False
        t = self.ty[ty[1]]
        return t.get("path", "").endswith("option::Option") and bool(t.get("args")) and self.ty[t["args"][0]]["k"] == "int"

    def mu(self, cp, key, a, ty, b=None):
        if not self.final and (cp.node, key) not in self.split and len(self.split) < 12:
            dt = isinstance(ty, tuple) and ty[0] == "disc" or (ty is not None and not isinstance(ty, tuple) and self.ty[ty]["k"] == "bool")
            if dt and (a is None or a is UNDEF or self.is_discrete(a)) and (b is None or b is UNDEF or self.is_discrete(b)):
                if self.option_int(ty):
                    # many optional numbers (minima and maxima): their states would multiply
                    self.optional.add((cp.node, key))
                    few = len(self.optional) <= 3
                    if not few and any(k in self.optional for k in self.split):
                        self.split = [k for k in self.split if k not in self.optional]
                        raise Restart()
                else:
                    few = True
                if few:
                    self.split.append((cp.node, key))
                    raise Restart()
        lo = hi = None
        tyi = ty
        if isinstance(ty, tuple):
            tyi = None
            if ty[0] == "len":
                lo, hi = 0, (1 << 63) - 1
            elif ty[0] == "disc" and ty[1] is not None and not isinstance(ty[1], tuple):
                lo, hi = 0, max(len(self.ty[ty[1]]["variants"]) - 1, 0)
        if tyi is None and ty is None:
            for x in (a, b):
                if x is not None and is_scalar(x):
                    tyi = tyi or self.find_ty(x)
        m = term("mu", cp.id, key, self.slot_name(key), ty=tyi, sym=cp.id, lo=lo, hi=hi)
        cp.mus[key] = (m, self.getter(key))
        if tyi is not None:
            return self.mk(m, tyi)
        sample = a if a is not None else b
        for x in (a, b):
            if x is None:
                continue
            for l, _ in leaves(x):
                if isinstance(l, Poly):
                    return atom(m)
        return m

    def mu_fat(self, cp, key, a, b, ty):
        m = term("mu", cp.id, key + (0,), self.slot_name(key), ty=ty if not isinstance(ty, tuple) else None, sym=cp.id)
        g = self.getter(key)
        cp.mus[key + (0,)] = (m, lambda s: self.slice_ref(g(s), s))
        ln = atom(term("len", term("deref", m, ty=None), lo=0, hi=(1 << 63) - 1))
        return agg("fat", (m, ZERO, ln))

    # ------------------------------------------------------------ driver
    def run(self):
        while True:
            try:
                return self.run1()
            except Restart:
                self.cps, self.cplist = {}, []

    def run1(self):
        store = {}
        f = self.g.root
        for i in range(f.body["argc"]):
            ty = f.body["locals"][i + 1]
            nm = None
            for l, s in f.body["names"]:
                if l == i + 1:
                    nm = s
            v = self.args[i] if self.args is not None else self.sym(nm or f"arg{i}", ty)
            store[self.lroot(f, i + 1)] = v
        ent = CP(0, self.g.entry.id, ())
        ent.store, ent.pred = store, TRUE
        self.cplist.append(ent)
        self.entry_cp = ent
        self.rets = []
        self.events = []
        while True:
            todo = [c for c in self.cplist if c.dirty]
            if not todo:
                break
            todo.sort(key=self.order_of)
            c = todo[0]
            if c.store is None:
                c.dirty = False
                continue
            if c.ran and c.changed:
                self.reset_after(c)
            c.dirty = c.changed = False
            c.ran = True
            self.rets = []
            for n, st in self.group(self.run_region(c)):
                self.arrive(n, st, c)
        # final pass
        self.final = True
        self.events, self.edges = [], []
        self.exits = []
        for c in [c for c in self.cplist if c.store is not None]:
            self.rets = []
            for n, st in self.group(self.run_region(c)):
                self.arrive(n, st, c)
            for p, v, s in self.rets:
                self.exits.append((c.id, p, v, s))
        return self

    def group(self, arrivals):
        by = {}
        for n, st in arrivals:
            by.setdefault(n.id, []).append(st)
        out = []
        for nid, sts in by.items():
            st = self.merge_states(sts)
            if st is not None:
                out.append((self.g.nodes[nid], st))
        return out


class Call:
    """A call that leaves the inlined graph; models work on this."""

    def __init__(self, an, n, st, callee, args, at, dty):
        self.an, self.n, self.st, self.callee, self.args, self.at, self.dty = an, n, st, callee, args, at, dty
        self.name = callee.get("rpath") or callee.get("path")
        self.path = callee.get("path")

    def ev_term(self, tag=None, ty=None):
        return term("ev", self.an.cur.id, self.n.id, self.name if tag is None else f"{self.name}/{tag}", ty=ty, sym=self.an.cur.id)

    def fresh(self, ty=None, tag=None):
        ty = self.dty if ty is None else ty
        return self.an.mk(self.ev_term(tag, ty), ty)

    def unknown(self):
        """Uninterpreted effectful call: fresh result; &mut arguments are overwritten."""
        self.an.unknown[self.name] = self.an.unknown.get(self.name, 0) + 1
        return self.effect("call")

    def effect(self, kind, havoc=True, extra=None):
        an = self.an
        args = tuple(self.args)
        r = self.fresh()
        an.event(kind, self.name, args, self.st, self.n, res=r, callee=self.callee, extra=extra)
        if havoc:
            for i, (a, ty) in enumerate(zip(self.args, self.at)):
                self.havoc(a, ty, i)
        if an.ty[self.dty]["k"] == "never":
            return None
        return r

    def havoc(self, a, ty, i):
        an = self.an
        t = an.ty[ty]
        if t["k"] in ("ref", "ptr") and t.get("mut"):
            pty = t["to"]
            if an.ty[pty]["k"] in ("slice",):
                try:
                    ref, start, ln = an.fat(a, ty)
                except Imprecise:
                    return
                for g, pl in an.targets(ref, pty, self.st.p):
                    old = an.read(self.st, pl)
                    if isinstance(old, Agg) and old.tag == "array":
                        et = an.ty.elem(an.path_ty(an.root_type(pl.root), pl.path)) if an.root_type(pl.root) is not None else None
                        nt = term("evout", an.cur.id, self.n.id, i, self.name, sym=an.cur.id)
                        kids = []
                        for j, k in enumerate(old.kids):
                            kids.append(an.app("elem", (nt, num(j)), et) if et is not None else term("elem", nt, num(j)))
                        an.write(self.st, pl, agg("array", kids), g)
                    else:
                        an.write(self.st, pl, term("evout", an.cur.id, self.n.id, i, self.name, ty=an.find_ty(old) if is_scalar(old) else None, sym=an.cur.id), g)
                return
            for g, pl in an.targets(a, pty, self.st.p):
                pt = an.ty[pty]
                if pt["k"] in ("ref", "ptr") and pt.get("mut"):
                    # &mut &mut X: the inner target may change
                    self.havoc(an.read(self.st, pl), pty, (i, "*"))
                    continue
                an.write(self.st, pl, an.mk(term("evout", an.cur.id, self.n.id, i, self.name, ty=pty, sym=an.cur.id), pty), g)
        elif t["k"] in ("closure", "tuple"):
            tys = t["tys"]
            if is_scalar(a):
                return
            for j, (x, xt) in enumerate(zip(a.kids, tys)):
                if x is not UNDEF:
                    self.havoc(x, xt, (i, j))

    def slice_arg(self, i):
        return self.an.fat(con_val(self.args[i], self.st.p), self.at[i])

    def arg_target(self, i):
        """lvalue [(guard, place)] and pointee type of reference argument i"""
        pty = self.an.ty.pointee(self.at[i])
        return self.an.targets(self.args[i], pty, self.st.p), pty

    def read_arg(self, i):
        lv, pty = self.arg_target(i)
        return con_val(self.an.read_lv(self.st, lv, pty), self.st.p), pty

    def write_arg(self, i, v):
        lv, pty = self.arg_target(i)
        self.an.write_lv(self.st, lv, v)
