"""C21: the length that an iterator reports is the number of items that follow."""
from .dd import *
from .values import *
from .facts import Subst, terms_in
from .props import rule, with_root, undecided
from .rules import Ob, where, short


def minus(a, b):
    return map2(lambda x, y: psub(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else UNDEF, a, b)


def zero(v):
    return map1(lambda x: FALSE if x is UNDEF else eq(x, ZERO), v)


class Steps:
    """Induction over the edges between loop heads, in a world of well-formed data."""

    def __init__(self, R, well):
        self.R, self.F, self.an, self.well = R, R.f, R.an, well
        self.seen = {}

    def world(self, p):
        """p, for data that are well-formed: strings exist and are UTF-8, required fields are present"""
        p = self.well(p)
        q = TRUE
        for x in support(p) if isinstance(p, Node) else ():
            ts = x.terms
            if len(ts) == 1 and len(ts[0][0]) == 1:
                t = ts[0][0][0]
                if t.op == "disc" and isinstance(t.args[0], T) and t.args[0].op == "from_utf8":
                    q = p_and(q, eq(x, ZERO))
                elif t.op == "elem" and t.lo < 0:
                    q = p_and(q, test(x, 0, INF))
                elif t.op == "fld" and isinstance(t.args[0], T) and t.args[0].op == "elem":
                    # the stored member type
                    if "EnumOrUnknown" in str(self.an.ty.path(t.args[0].ty) if t.args[0].ty is not None else ""):
                        q = p_and(q, test(x, 0, 2))
                elif t.op == "disc" and self.required(t):
                    q = p_and(q, eq(x, ONE))
            if len(ts) == 2:
                ops = {m[0].op: (m[0], c) for m, c in ts if len(m) == 1}
                if set(ops) == {"len", "elem"} and ops["len"][1] * ops["elem"][1] < 0 and self.is_table(ops["len"][0]):
                    q = p_and(q, test(x, 1, INF) if ops["len"][1] > 0 else test(x, -INF, -1))
        return p_and(p, q)

    def is_table(self, t):
        return any(x.op == "fld" and x.ty is not None and self.R.s.proto_type(x.ty) == "StringTable" or
                   isinstance(x, T) and x.ty is not None and self.R.s.proto_type(x.ty) == "StringTable" for x in terms_in(t.args[0]))

    def required(self, t):
        """Is this the presence of a required message field?"""
        a = t.args[0]
        while isinstance(a, T) and a.op == "fld":
            m = a.args[0]
            if isinstance(m, T) and m.ty is not None and self.R.s.proto_type(m.ty) == "PrimitiveBlock":
                return True
            a = m
        return False

    def at(self, e, v):
        return con_val(self.well(v), self.world(e.pred))

    def always(self, cp, D, good, fix):
        """Does good(D) hold whenever cp is reached?  fix: is D unchanged on the way round"""
        k = (cp, D.id)
        if k in self.seen:
            return self.seen[k]
        if len(self.seen) > 200:
            return False
        self.seen[k] = True
        ok = cp != 0
        for e in self.F.ins.get(cp, []) if ok else ():
            p = self.world(e.pred)
            if p is FALSE:
                continue
            x = con_val(self.well(self.F.on_edge(e, D)), p)
            if p_and(p, p_not(good(x))) is FALSE:
                continue
            if cp in self.F.alive(self.F.cps[e.src]) and fix(p, x, D):
                continue
            if e.src != cp and e.src != 0 and isinstance(x, Poly) and self.always(e.src, x, good, fix):
                continue
            ok = False
            self.why = f"{short(x)} when {short(p)}"
            break
        self.seen[k] = ok
        return ok

    def is_zero(self, cp, D):
        def fix(p, x, d):
            return p_and(p, p_not(zero(minus(x, d)))) is FALSE
        self.seen = {}
        return self.always(cp, D, zero, fix)

    def not_negative(self, cp, V):
        def good(x):
            return map1(lambda y: FALSE if y is UNDEF else test(y, 0, INF), x)

        def fix(p, x, d):
            return p_and(p, p_and(good(d), p_not(good(x)))) is FALSE
        self.seen = {}
        return self.always(cp, V, good, fix)


def lengths(R, report, what, well):
    an, F = R.an, R.f
    S = Steps(R, well)
    heads = {}
    for e in R.obs("len"):
        p = S.world(e.pred)
        left, V = (S.at(e, x) for x in e.args[0].kids)
        nm = f"{what}: at every step the reported length is the number of items that follow"
        D = con_val(minus(left, V), p)
        if p_and(p, p_not(zero(D))) is FALSE or S.is_zero(e.cp, D):
            report(Ob(nm, where(e)))
        elif R.tainted(D, e.pred):
            report(Ob(nm, where(e), undecided=f"depends on calls outside of the analysis ({R.unknown_names()})"))
            continue
        else:
            report(Ob(nm, where(e), detail=f"the reported length {short(V)} and the items that follow do not change by the same amount: {short(getattr(S, 'why', D))}"))
            continue
        if isinstance(left, Poly) and len(left.terms) == 1 and left.terms[0][1] == 1 and left.const == 0 and left.terms[0][0][0].op == "mu":
            heads[e.cp] = (left.terms[0][0][0], V, S.not_negative(e.cp, V))
    if not R.obs("len"):
        report(Ob(f"{what}: the reported length", R.name, detail="asking for the length never returns"))
    for e in R.obs("end"):
        p = S.world(e.pred)
        if p is FALSE:
            continue
        left, after = (S.at(e, x) for x in e.args[0].kids)
        h = heads.get(e.cp)
        if h is not None:
            m, V, pos = h
            z = Subst(an, {m: V})
            left, after, p = z(left), z(after), z(p)
            if pos:
                p = p_and(p, map1(lambda y: FALSE if y is UNDEF else test(y, 0, INF), V))
        for nm, v, why in ((f"{what}: no item is missing at the end", left, "items are missing"),
                           (f"{what}: the reported length is 0 at the end", after, "the reported length is not 0")):
            v = con_val(v, p)
            bad = p_and(p, p_not(zero(v)))
            if bad is FALSE:
                report(Ob(nm, where(e)))
            elif R.tainted(v, bad) or h is None:
                report(Ob(nm, where(e), undecided=f"depends on calls outside of the analysis ({R.unknown_names()})"))
            else:
                report(Ob(nm, where(e), detail=f"{why}: {short(v)} when {short(bad)}"))
    if not R.obs("end"):
        report(Ob(f"{what}: iteration ends", R.name, detail="the iterator never returns None"))
    hints(R, report, what, S)


def hints(R, report, what, S):
    """size_hint() is the exact length"""
    lens = {}
    for e in R.obs("len", "end"):
        lens[e.cp, "hint" if e.name == "len" else "hint_end"] = e.args[0].kids[1]
    for e in R.obs("hint", "hint_end"):
        V = lens.get((e.cp, e.name))
        nm = f"{what}: the size hint is the exact length"
        if V is None:
            continue
        p = S.world(e.pred)
        lo, up = e.args[0].kids
        up = R.an.expand(up, R.an.ty[e.extra]["tys"][1])
        some = map1(lambda x: FALSE if x is UNDEF else eq(x, ONE), up.d)
        hi = up.payload(1)
        V = S.at(e, V)
        bad = p_not(some)
        for x in (lo, hi[0] if hi else UNDEF):
            bad = p_or(bad, p_not(zero(minus(S.at(e, x), V))))
        bad = p_and(p, bad)
        if bad is FALSE:
            report(Ob(nm, where(e)))
        elif R.tainted(bad):
            report(Ob(nm, where(e), undecided=f"depends on calls outside of the analysis ({R.unknown_names()})"))
        else:
            report(Ob(nm, where(e), detail=f"it is ({short(lo)}, {short(up)}) instead of {short(V)} when {short(bad)}"))


def equal_lists(R, *lens):
    """The lists are equally long: each length is replaced by the first one"""
    m = {}
    for l in lens[1:]:
        t = l.terms[0][0][0]
        m[t] = lens[0]
    return Subst(R.an, m)


def even(R):
    """Key and value indices come in pairs"""
    m = {}
    for e in R.obs("len"):
        for t in terms_in(e.args[0]):
            if t.op in ("div", "fdiv") and t.args[1].is_const():
                for x in terms_in(t.args[0]):
                    if x.op == "len":
                        m[x] = pscale(atom(term("sym", "pairs", x, lo=0, hi=1 << 60)), t.args[1].const)
    return Subst(R.an, m)


def same(v):
    return v


PLAIN = {"l_groups": "groups()", "l_nodes": "nodes()", "l_ways": "ways()", "l_relations": "relations()", "l_refs": "refs()"}
TAGS = {"l_node": "Node", "l_way": "Way", "l_rel": "Relation"}


@rule("C21", "a client's count of the items that are still to come (the first reported length, minus one per item) equals the reported length at every step, by induction over the edges between loop heads, and both are 0 at the end; for lists of equal length and strings that resolve")
def c21(ctx, report):
    def go(root, what, well):
        def f(R):
            lengths(R, report, what, well(R))
        with_root(ctx, report, root, f, "len")
    for root, what in PLAIN.items():
        go(root, what, lambda R: same)

    def lists(msg, *nums):
        def f(R):
            m = R.arg_message(0, msg)
            return equal_lists(R, *[R.s.rlen(m, n) for n in nums])
        return f
    for root, msg in TAGS.items():
        for k in ("tags", "raw_tags"):
            go(f"{root}_{k}", f"{msg}::{k}()", lists(msg, 2, 3))
    go("l_locations", "Way::node_locations()", lists("Way", 9, 10))
    go("l_members", "Relation::members()", lists("Relation", 8, 9, 10))

    def dense(R):
        g = R.arg_message(0, "PrimitiveGroup")
        _, d = R.s.has(g, 2)
        return equal_lists(R, *[R.s.rlen(d, n) for n in (1, 8, 9)])
    go("l_dense", "dense_nodes()", dense)
    for k in ("tags", "raw_tags"):
        go(f"l_dense_{k}", f"DenseNode::{k}()", even)

    def open_end(R):
        for e in R.obs("hint"):
            lo, up = e.args[0].kids
            up = R.an.expand(up, R.an.ty[e.extra]["tys"][1])
            nm = "elements(): the size hint promises nothing"
            bad = p_and(e.pred, p_or(p_not(zero(lo)), map1(lambda x: FALSE if x is UNDEF else eq(x, ONE), up.d)))
            if bad is FALSE:
                report(Ob(nm, where(e)))
            else:
                report(Ob(nm, where(e), undecided="a size hint of elements() is not compared with the elements that follow"))
    with_root(ctx, report, "l_elements", open_end, "len")
