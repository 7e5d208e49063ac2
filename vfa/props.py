"""The rules, one function per property. Each gets a context and reports obligations."""
from .rules import *
from . import spec as SP

RULES = {}
WALKS = ("w_", "w_el_", "w_cb_")


TRUSTED = [
    "rustc (nightly): type checking, borrow checking, MIR construction, monomorphisation",
    "driver/: export of the MIR; vfa/: value-flow analysis and diagrams",
    "vfa/models.py: meaning of the std, protobuf, byteorder, flate2, memmap2 and rayon functions that are called",
]


def rule(pid, what, level="proof", trusted=()):
    def deco(f):
        RULES[pid] = (f, {"rule": what, "level": level, "trusted": TRUSTED + list(trusted)})
        return f
    return deco


def undecided(report, R, what):
    report(Ob(f"{what}: analysis of {R.name}", R.name, undecided=R.error))


def i64(an):
    return an.ty.by_str["i64"]


def with_root(ctx, report, name, f, group="walk"):
    R = ctx.root(name, group)
    if R is None:
        report(Ob(f"client {name}", name, undecided="the client function is not part of the program"))
        return
    if R.error:
        undecided(report, R, name)
        return
    f(R)


def degrees(an, nano):
    f64 = an.ty.by_str["f64"]
    return map1(lambda x: x if x is UNDEF else an.binop("Mul", term("fconst", repr(1e-9), ty=f64), term("i2f", x, ty=f64), f64), nano)


def trunc100(an, nano):
    return an.binop("Div", nano, num(100), i64(an))


def in_i32(v):
    return map1(lambda x: FALSE if x is UNDEF else test(x, -(1 << 31), (1 << 31) - 1), v)


def present(S, msg, *nums):
    p = TRUE
    for n in nums:
        p = p_and(p, S.opt(msg, n)[0])
    return p


# ---------------------------------------------------------------- C01 / C02: coordinates
def derived_coords(R, report, tag):
    """lat/lon in degrees and decimicro degrees against the nano degrees observed next to them"""
    for ax in ("lat", "lon"):
        for e in R.obs("nano_" + ax):
            v = e.args[0]
            for d in R.obs(ax):
                if d.cp == e.cp and p_and(d.pred, e.pred) is not FALSE:
                    compare(R, report, f"C01 {tag}.{ax}() is 1e-9 times nano_{ax}()", d, d.args[0], degrees(R.an, v), p_and(e.pred, d.pred))
            for d in R.obs("decimicro_" + ax):
                if d.cp == e.cp:
                    t = trunc100(R.an, v)
                    compare(R, report, f"C01 {tag}.decimicro_{ax}() is nano_{ax}() / 100", d, d.args[0], t, p_and(p_and(e.pred, d.pred), in_i32(t)))


def need(R, report, name, root):
    es = R.obs(name)
    if not es:
        report(Ob(f"{root}: '{name}' is reported", R.name, detail=f"the value '{name}' is never reported: nothing reaches {R.name}'s observation of it"))
    return es


def own_element(R, block, e, idname, kind):
    """The element that the client's region works on: from the id event of the same cut point or an outer one"""
    out = []
    for d in R.obs(idname):
        out += [x for x in elements_in(R, block, con_val(d.args[0], d.pred), kind)]
    return out


def scaled(R, block, v, p, offnum):
    """[(guard, X)] with v = offset + granularity * X"""
    S = R.s
    gran, off = S.val(block, 17), S.val(block, offnum)
    out = []
    for (l, g, o), q in tuple_leaves((constrain(v, p), gran, off), p):
        if any(x is UNDEF for x in (l, g, o)):
            continue
        x = pdiv(psub(l, o), g) if all(isinstance(y, Poly) for y in (l, g, o)) else None
        out.append((q, x, l, g, o))
    return out


def column(R, D, colnum, x, ety_of=None):
    """Position at which the sum x ends: the elem term of column colnum of message D occurring with factor 1"""
    base, ety = R.s.rep(D, colnum)
    cands = []
    for m, c in x.terms:
        if c == 1 and len(m) == 1 and m[0].op == "elem" and m[0].args[0] is base:
            cands.append(m[0].args[1])
    return base, ety, cands


def check_sum(R, report, nm, e, x, D, colnum, pos, g, lens=()):
    """x is the sum of column colnum of D up to and including position pos"""
    base, ety, cands = column(R, D, colnum, x)
    S = Sums(R)
    tries = [pos] if pos is not None else cands
    for P in tries:
        if S.check(e.cp, x, base, P, ety, g, lens):
            report(Ob(nm, where(e)))
            return P
    missing(R, report, nm, e, x, g, f"reported {short(x)}: " + (S.why or f"it does not end with an element of field {SP.NAMES[R.s.proto_type(D.ty)][colnum]}"))
    return None


def dense_sites(R, block, e):
    """[(guard, D message, gi, P)] of the dense node that the id event e reports"""
    out = []
    for l, g in split_leaves(con_val(e.args[0], e.pred), e.pred):
        for t, gi, P in dense_in(R, block, l, 1):
            pres, D = dense_msg(R.s, block, gi)
            if D is not t.args[0].args[0]:
                for dl, dg in leaves(D, g):
                    if dl is t.args[0].args[0]:
                        D = dl
            out.append((p_and(g, pres), t.args[0].args[0], gi, P))
    return out


@rule("C01", "value numbering of every reported coordinate over the client walk; equality of its canonical form with offset + granularity * stored value (or the accumulated column) under every guard")
def c01(ctx, report):
    def nodes(R):
        block = R.arg_message(0, "PrimitiveBlock")
        S = R.s
        els = own_element(R, block, None, "id", "Node")
        for nm, num_, offn in (("nano_lat", 8, 19), ("nano_lon", 9, 20)):
            for e in need(R, report, nm, "C01 Node"):
                own = [t for t, _ in els if R.an is not None]
                if not own:
                    missing(R, report, f"C01 Node.{nm}", e, e.args[0], e.pred, "the id reported next to it is not the id of a stored node")
                for t in own[:1]:
                    p = p_and(e.pred, present(S, t, 8, 9))
                    want = R.an.iadd(S.val(block, offn), R.an.imul(S.val(block, 17), S.val(t, num_)))
                    compare(R, report, f"C01 Node.{nm}() is offset + granularity * {SP.NAMES['Node'][num_]}", e, e.args[0], want, p)
        derived_coords(R, report, "Node")
    with_root(ctx, report, "w_node_coords", nodes)

    def dense(R):
        block = R.arg_message(0, "PrimitiveBlock")
        for nm, col, offn in (("nano_lat", 8, 19), ("nano_lon", 9, 20)):
            for e in need(R, report, nm, "C01 DenseNode"):
                scaled_sum(R, block, e, nm, "DenseNode", "DenseNodes", col, offn)
        derived_coords(R, report, "DenseNode")

    def scaled_sum(R, block, e, nm, tag, msg, col, offn):
        for q, x, l, g, o in scaled(R, block, e.args[0], e.pred, offn):
            name = f"C01 {tag}.{nm}() is offset + granularity * accumulated {SP.NAMES[msg][col]}"
            ok = False
            if x is not None:
                for m, c in x.terms:
                    t = m[0]
                    if c == 1 and len(m) == 1 and t.op == "elem" and isinstance(t.args[0], T) and t.args[0].op == "fld":
                        D = t.args[0].args[0]
                        if isinstance(D, T) and D.ty is not None and R.s.proto_type(D.ty) == msg and R.s.rep(D, col)[0] is t.args[0]:
                            ok = True
            if ok:
                report(Ob(name, where(e)))
            else:
                missing(R, report, name, e, l, q, f"reported {short(l)}, with offset {short(o)} and granularity {short(g)}")
    for w in WALKS:
        with_root(ctx, report, w + "dense_coords", dense)

    def way(R):
        block = R.arg_message(0, "PrimitiveBlock")
        for nm, col, offn in (("nano_lat", 9, 19), ("nano_lon", 10, 20)):
            for e in need(R, report, nm, "C01 WayNodeLocation"):
                scaled_sum(R, block, e, nm, "WayNodeLocation", "Way", col, offn)
        derived_coords(R, report, "WayNodeLocation")
    with_root(ctx, report, "w_way_locations", way)

    def bbox(R):
        S = R.s
        h = R.arg_message(0, "HeaderBlock")
        pres, B = S.has(h, 1)
        for e in need(R, report, "is_some", "C01 header bbox"):
            compare(R, report, "C01 HeaderBlock.bbox() is present exactly when it is stored", e, e.args[0], from_pred(pres), e.pred)
        for nm, n in (("left", 1), ("right", 2), ("top", 3), ("bottom", 4)):
            for e in need(R, report, nm, "C01 header bbox"):
                p = p_and(e.pred, p_and(pres, present(S, B, 1, 2, 3, 4)))
                compare(R, report, f"C01 bbox.{nm} is 1e-9 times the stored {SP.NAMES['HeaderBBox'][n]}", e, e.args[0], degrees(R.an, S.val(B, n)), p)
    with_root(ctx, report, "w_header_bbox", bbox)


def at_cp(sites, e):
    """the reports of an id in the same region as event e (else any)"""
    return [x for x in sites if x[0] == e.cp] or sites[:1]


@rule("C02", "the value reported at each position is, by induction over the edges between loop heads, the sum of the stored elements of its own column up to that position, starting from 0 per list")
def c02(ctx, report):
    def dense(R):
        block = R.arg_message(0, "PrimitiveBlock")
        pos = {}
        for e in need(R, report, "id", "C02"):
            got = False
            for g, D, gi, P in dense_sites(R, block, e):
                for l, gl in split_leaves(constrain(e.args[0], g), p_and(g, e.pred)):
                    got = True
                    check_sum(R, report, "C02 dense ids are running sums of the stored deltas", e, l, D, 1, P, gl)
                    pos[e.cp] = (D, P)
            if not got:
                missing(R, report, "C02 dense ids", e, e.args[0], e.pred, f"the id {short(e.args[0])} is not taken from the id column")
        for nm, col, offn in (("nano_lat", 8, 19), ("nano_lon", 9, 20)):
            for e in need(R, report, nm, "C02"):
                D, P = pos.get(e.cp, (None, None))
                for q, x, l, g, o in scaled(R, block, e.args[0], e.pred, offn):
                    name = f"C02 dense {nm[5:]} is the running sum at the position of its id"
                    if x is None or D is None:
                        missing(R, report, name, e, l, q, f"{short(l)} is not offset + granularity * sum")
                    else:
                        check_sum(R, report, name, e, x, D, col, P, q)
    for w in WALKS:
        with_root(ctx, report, w + "dense_coords", dense)

    def way_refs(R):
        block = R.arg_message(0, "PrimitiveBlock")
        ws = own_element(R, block, None, "way", "Way")
        for e in need(R, report, "ref", "C02"):
            plain_sum(R, e, ws, 8, "C02 way references are running sums")
        for e in need(R, report, "raw_refs", "C02"):
            for W, _ in ws[:1]:
                compare_slice(R, report, "C02 raw_refs() is the stored column", e, R.s.rep(W, 8)[0])

    def plain_sum(R, e, owners, col, name):
        if not owners:
            missing(R, report, name, e, e.args[0], e.pred, "no stored element is reported")
        for W, _ in owners[:1]:
            for l, g in split_leaves(con_val(e.args[0], e.pred), e.pred):
                if not isinstance(l, Poly):
                    missing(R, report, name, e, l, g, f"reported {short(l)}")
                    continue
                b, ety, c = column(R, W, col, l)
                check_sum(R, report, name, e, l, W, col, c[0] if c else None, g)
    with_root(ctx, report, "w_way_refs", way_refs)

    def way_loc(R):
        block = R.arg_message(0, "PrimitiveBlock")
        ws = own_element(R, block, None, "way", "Way")
        pos = {}
        for nm, col, offn in (("nano_lat", 9, 19), ("nano_lon", 10, 20)):
            for e in need(R, report, nm, "C02"):
                for q, x, l, g, o in scaled(R, block, e.args[0], e.pred, offn):
                    name = f"C02 way node {nm[5:]} is a running sum"
                    if x is None or not ws:
                        missing(R, report, name, e, l, q, f"{short(l)} is not offset + granularity * sum")
                        continue
                    W = ws[0][0]
                    b, ety, c = column(R, W, col, x)
                    P = pos.get(e.cp, c[0] if c else None)
                    pos.setdefault(e.cp, P)
                    check_sum(R, report, name, e, x, W, col, P, q)
    with_root(ctx, report, "w_way_locations", way_loc)

    def members(R):
        block = R.arg_message(0, "PrimitiveBlock")
        rs = own_element(R, block, None, "rel", "Relation")
        for e in need(R, report, "member_id", "C02"):
            plain_sum(R, e, rs, 9, "C02 member ids are running sums")
    with_root(ctx, report, "w_rel_members", members)

    def dinfo(R):
        block = R.arg_message(0, "PrimitiveBlock")
        sites = [(e.cp,) + x for e in R.obs("id") for x in dense_sites(R, block, e)]
        dg = R.s.val(block, 18)
        for nm, col in (("milli_timestamp", 2), ("changeset", 3), ("uid", 4)):
            for e in need(R, report, nm, "C02"):
                name = f"C02 dense {SP.NAMES['DenseInfo'][col]} is a running sum"
                for cp, g, D, gi, P in at_cp(sites, e):
                    pi, I = R.s.has(D, 5)
                    for (l, gr), q in tuple_leaves((con_val(e.args[0], e.pred), dg if col == 2 else ONE), p_and(p_and(e.pred, g), pi)):
                        x = pdiv(l, gr) if isinstance(l, Poly) else None
                        if x is None:
                            missing(R, report, name, e, l, q, f"reported {short(l)}")
                        else:
                            check_sum(R, report, name, e, x, I, col, P, q, info_lens(R, D))
        for e in need(R, report, "user", "C02"):
            for cp, g, D, gi, P in at_cp(sites, e):
                dense_user(R, report, block, e, D, P, "C02 dense user index is a running sum", sums=True)
    for w in ("w_", "w_cb_"):
        with_root(ctx, report, w + "dense_info", dinfo)


def compare_slice(R, report, name, e, seq, p=TRUE):
    """A reported slice is all of the stored sequence (wherever p holds)"""
    v = e.args[0]
    an = R.an
    p = p_and(p, e.pred)
    try:
        ref, start, ln = an.fat(v, e.extra)
        ok = True
        for l, g in leaves(constrain(ref, p), p):
            c = an.read_default(l.place) if isinstance(l, RefV) else term("deref", l, ty=None) if isinstance(l, T) else UNDEF
            if c is not seq and not (isinstance(c, T) and c.op == "vecnew"):
                ok = False
        want = an.len_of(seq)
        ok = ok and same_val(an, start, ZERO, p) and same_val(an, ln, want, p)
    except Imprecise:
        ok = False
    if ok:
        report(Ob(name, where(e)))
    else:
        missing(R, report, name, e, v, p, f"reported {short(v)}, expected all of {short(seq)}")


# ---------------------------------------------------------------- strings
def table(S, block):
    """(present, sequence of the block's strings)"""
    p, m = S.has(block, 1)
    return p, S.rep(m, 1)[0]


def utf8_of(R, v):
    return [t for t in terms_in(v) if t.op == "from_utf8"]


def check_lookup(R, report, name, e, v, vty, idx, block, p):
    """v : Result<&str> is the lookup of index idx (Poly) in the block's table"""
    S, an = R.s, R.an
    tp, tab = table(S, block)
    p = p_and(p, tp)
    if p is FALSE:
        return
    p = p_and(p, R.an.ile(ZERO, idx))
    if p is FALSE:
        return
    v = con_val(an.expand(con_val(v, p), vty), p)
    inr = an.ile(an.iadd(idx, ONE), an.len_of(tab))
    el = an.elem_of(tab, idx, an.ty.elem(S.raw(S.has(block, 1)[1], 1)[1]))
    us = [u for u in utf8_of(R, v) if u.args[0] is el]
    okp = map1(lambda x: FALSE if x is UNDEF else eq(x, ZERO), v.d) if isinstance(v, En) else FALSE
    if not us:
        missing(R, report, name, e, v, p_and(p, inr), f"reported {short(v)}, which is not the entry {short(el)}")
        return
    u = an.expand(us[0], us[0].ty)
    uok = map1(lambda x: eq(x, ZERO), u.d)
    wok = p_and(inr, uok)
    bad = p_and(p, p_or(p_and(okp, p_not(wok)), p_and(wok, p_not(okp))))
    if bad is not FALSE:
        missing(R, report, name, e, v, bad, f"the lookup of index {short(idx)} gives the wrong one of value and error when {short(bad)}")
        return
    pl = v.payload(0)
    compare(R, report, name, e, pl[0] if pl else UNDEF, u.payload(0)[0], p_and(p, wok), f"index {short(idx, 80)}: ")


def info_lens(R, D):
    p, I = R.s.has(D, 5)
    return tuple(ite(p, R.s.rlen(I, n), ZERO) for n in (1, 2, 3, 4, 5))


def dense_user(R, report, block, e, D, P, name, sums=False):
    S = R.s
    pi, I = S.has(D, 5)
    p = p_and(e.pred, pi)
    v = con_val(e.args[0], p)
    us = utf8_of(R, v)
    if not us:
        missing(R, report, name, e, v, p, f"the user {short(v)} is not a table entry")
        return
    for u in us[:1]:
        el = u.args[0]
        if not (isinstance(el, T) and el.op == "elem"):
            missing(R, report, name, e, v, p, f"the user {short(v)} is not a table entry")
            continue
        x = el.args[1]
        if sums:
            check_sum(R, report, name, e, x, I, 5, P, p, info_lens(R, D))
        else:
            check_lookup(R, report, name, e, v, e.extra, x, block, p)


# ---------------------------------------------------------------- C03
@rule("C03", "canonical form of every metadata accessor equals the stored field (or its default) of the element whose id is reported next to it, at the same position for dense nodes")
def c03(ctx, report):
    def flags(R, report, kind, vis):
        for e in need(R, report, "visible", f"C03 {kind}"):
            compare(R, report, f"C03 {kind}.info().visible() is the stored flag, or true", e, e.args[0], vis, e.pred)
        for e in need(R, report, "deleted", f"C03 {kind}"):
            compare(R, report, f"C03 {kind}.info().deleted() is the opposite of visible", e, e.args[0], from_pred(p_not(to_pred(vis))), e.pred)

    for root, kind in (("w_node_info", "Node"), ("w_way_info", "Way"), ("w_rel_info", "Relation")):
        def plain(R, kind=kind):
            S, an = R.s, R.an
            block = R.arg_message(0, "PrimitiveBlock")
            own = own_element(R, block, None, "id", kind)
            if not own:
                report(Ob(f"C03 {kind}.info", R.name, detail=f"the id reported next to the metadata is not a stored {kind}'s"))
                return
            N = own[0][0]
            hi, I = S.has(N, 4)
            for nm, n in (("version", 1), ("changeset", 3), ("uid", 4), ("milli_timestamp", 2), ("user", 5)):
                for e in need(R, report, nm, f"C03 {kind}"):
                    fp, x = S.opt(I, n)
                    have = p_and(hi, fp)
                    v = an.expand(con_val(e.args[0], e.pred), e.extra)
                    some = map1(lambda y: FALSE if y is UNDEF else eq(y, ONE), v.d)
                    name = f"C03 {kind}.info().{nm}() is present exactly when stored"
                    if p_and(e.pred, p_or(p_and(some, p_not(have)), p_and(have, p_not(some)))) is FALSE:
                        report(Ob(name, where(e)))
                    else:
                        missing(R, report, name, e, v, e.pred, f"reported as present when {short(some)}, stored when {short(have)}")
                        continue
                    pl = v.payload(1)
                    got = pl[0] if pl else UNDEF
                    p = p_and(e.pred, have)
                    name = f"C03 {kind}.info().{nm}() is the stored value"
                    if nm == "user":
                        for l, g in split_leaves(constrain(x, p), p):
                            check_lookup(R, report, name, e, got, an.ty[e.extra]["args"][0], l, block, g)
                    else:
                        want = an.imul(x, S.val(block, 18)) if n == 2 else x
                        compare(R, report, name, e, got, want, p)
            fp, x = S.opt(I, 6)
            vis = ite(p_and(hi, fp), x, ONE)
            flags(R, report, kind, vis)
        with_root(ctx, report, root, plain)

    def dense(R):
        S, an = R.s, R.an
        block = R.arg_message(0, "PrimitiveBlock")
        sites = [x for e in R.obs("id") for x in dense_sites(R, block, e)]
        if not sites:
            report(Ob("C03 DenseNode.info", R.name, detail="the id reported next to the metadata is not a stored dense node's"))
            return
        g, D, gi, P = sites[0]
        hi, I = S.has(D, 5)
        enough = hi
        for n in (1, 2, 3, 4, 5):
            enough = p_and(enough, an.ile(padd(P, ONE), S.rlen(I, n)))
        for e in need(R, report, "has_info", "C03 DenseNode"):
            some = to_pred(e.args[0])
            name = "C03 DenseNode.info() is present when every column has the position"
            bad = p_and(p_and(e.pred, enough), p_not(some))
            if bad is FALSE:
                report(Ob(name, where(e)))
            else:
                missing(R, report, name, e, e.args[0], bad, f"absent although stored, when {short(bad)}")
            bad = p_and(p_and(e.pred, p_not(hi)), some)
            name = "C03 DenseNode.info() is absent without stored metadata"
            if bad is FALSE:
                report(Ob(name, where(e)))
            else:
                missing(R, report, name, e, e.args[0], bad, f"present without stored metadata, when {short(bad)}")
        for e in need(R, report, "version", "C03 DenseNode"):
            compare(R, report, "C03 DenseNodeInfo.version() is the version at the node's position", e, e.args[0], S.relem(I, 1, P), p_and(e.pred, enough))
        for nm, n in (("milli_timestamp", 2), ("changeset", 3), ("uid", 4)):
            for e in need(R, report, nm, "C03 DenseNode"):
                for (l, gr), q in tuple_leaves((con_val(e.args[0], e.pred), S.val(block, 18) if n == 2 else ONE), p_and(e.pred, enough)):
                    x = pdiv(l, gr) if isinstance(l, Poly) else None
                    name = f"C03 DenseNodeInfo.{nm}() comes from the node's position" + (" and is scaled by the date granularity" if n == 2 else "")
                    base, ety, c = column(R, I, n, x) if x is not None else (None, None, [])
                    if any(p_and(q, p_not(eq(P, y))) is FALSE for y in c):
                        report(Ob(name, where(e)))
                    else:
                        missing(R, report, name, e, l, q, f"reported {short(l)}, which does not end with position {short(P)} of {SP.NAMES['DenseInfo'][n]}")
        for e in need(R, report, "user", "C03 DenseNode"):
            dense_user(R, report, block, p_ev(e, enough), D, P, "C03 DenseNodeInfo.user() is the table entry of the accumulated index")
        vis = ite(an.ile(padd(P, ONE), S.rlen(I, 6)), S.relem(I, 6, P), ONE)
        for nm in ("visible", "deleted"):
            for e in need(R, report, nm, "C03 DenseNode"):
                w = vis if nm == "visible" else from_pred(p_not(to_pred(vis)))
                compare(R, report, f"C03 DenseNodeInfo.{nm}()", e, e.args[0], w, p_and(e.pred, enough))
    with_root(ctx, report, "w_dense_info", dense)


def p_ev(e, p):
    n = type(e)()
    for a in e.__slots__:
        setattr(n, a, getattr(e, a, None))
    n.pred = p_and(e.pred, p)
    return n


# ---------------------------------------------------------------- C04
@rule("C04", "canonical form of every header accessor equals the stored field or None")
def c04(ctx, report):
    def f(R):
        S, an = R.s, R.an
        h = R.arg_message(0, "HeaderBlock")
        for nm, n in (("required_features", 4), ("optional_features", 5)):
            for e in need(R, report, nm, "C04"):
                compare_slice(R, report, f"C04 {nm}() is the stored list", e, S.rep(h, n)[0])
        for nm, n in (("writing_program", 16), ("source", 17), ("osmosis_replication_timestamp", 32),
                      ("osmosis_replication_sequence_number", 33), ("osmosis_replication_base_url", 34)):
            for e in need(R, report, nm, "C04"):
                p, x = S.opt(h, n)
                if n in (16, 17, 34):
                    sty = an.ty[e.extra]["args"][0]
                    x = map1(lambda t: t if t is UNDEF else term("str_of", t, ty=sty), x)
                want = en(ite(p, ONE, ZERO), {0: (), 1: (x,)})
                compare(R, report, f"C04 {nm}() is the stored field {SP.NAMES['HeaderBlock'][n]}, or absent", e, an.expand(e.args[0], e.extra), want, e.pred)
    with_root(ctx, report, "w_header", f)


# ---------------------------------------------------------------- C05
def lookups(R, report, tag, block, idx_of):
    """Every outcome of a lookup belongs to the entry at idx of the block's table. idx_of(event) -> [(guard, index)]"""
    S, an = R.s, R.an
    tp, tab = table(S, block)
    ety = an.ty.elem(S.raw(S.has(block, 1)[1], 1)[1])
    for e in R.obs("ok", "oob", "utf8", "utf8err", "other"):
        for g, idx in idx_of(e):
            p0 = p_and(p_and(e.pred, g), tp)
            for x, gx in split_leaves(constrain(idx, p0), p0):
                p = p_and(gx, an.ile(ZERO, x))
                neg = p_and(gx, p_not(an.ile(ZERO, x)))
                inr = an.ile(an.iadd(x, ONE), an.len_of(tab))
                u = an.expand(term("from_utf8", an.elem_of(tab, x, ety), ty=utf8_ty(R, e)), utf8_ty(R, e)) if utf8_ty(R, e) is not None else None
                uok = map1(lambda y: eq(y, ZERO), u.d) if u is not None else TRUE
                want = {"ok": p_and(inr, uok), "oob": p_not(inr), "utf8": p_and(inr, p_not(uok)), "utf8err": p_and(inr, p_not(uok)), "other": FALSE}[e.name]
                name = f"C05 {tag}: outcome '{e.name}' belongs to the stored index"
                bad = p_or(p_and(p, p_not(want)), neg if e.name != "oob" else FALSE)
                if bad is not FALSE:
                    missing(R, report, name, e, e.args[0], bad, f"the lookup of index {short(x, 120)} has this outcome when {short(bad)}")
                    continue
                report(Ob(name, where(e)))
                v = {"ok": lambda: u.payload(0)[0], "utf8err": lambda: u.payload(1)[0]}.get(e.name, lambda: x)()
                compare(R, report, f"C05 {tag}: '{e.name}' carries " + {"ok": "the entry at the stored index", "utf8err": "the cause"}.get(e.name, "the stored index"), e, e.args[0], v, p)


def utf8_ty(R, e):
    if not hasattr(R, "_u8"):
        R._u8 = None
        for ev in R.f.events:
            for t in terms_in(tuple(x for x in ev.args if x is not None) + (ev.pred,)):
                if t.op == "from_utf8":
                    R._u8 = t.ty
    return R._u8


def every_outcome(R, report, tag, names, p0):
    """together the outcomes cover p0 (a lookup is never dropped)"""
    p = FALSE
    es = R.obs(*names)
    for e in es:
        p = p_or(p, e.pred)
    rest = p_and(p0, p_not(p))
    name = f"C05 {tag}: every lookup has an outcome"
    if not es:
        report(Ob(name, R.name, detail="no outcome is ever reported"))
    elif rest is FALSE:
        report(Ob(name, where(es[0])))
    else:
        missing(R, report, name, es[0], UNDEF, rest, f"nothing is reported when {short(rest)}")


@rule("C05", "every string that is reported has the canonical form from_utf8(table[i]) for the stored index i; each outcome of a lookup (string, out-of-bounds error, UTF-8 error) is reached exactly under its condition and carries that index")
def c05(ctx, report):
    OUT = ("ok", "oob", "utf8", "other")

    def role(R):
        S = R.s
        block = R.arg_message(0, "PrimitiveBlock")
        rs = own_element(R, block, None, "id", "Relation")
        ix = need(R, report, "index", "C05 role")
        if not rs or not ix:
            return

        def idx(e):
            return [(d.pred, d.args[0]) for d in ix if d.cp == e.cp]
        lookups(R, report, "RelMember.role()", block, idx)
        every_outcome(R, report, "RelMember.role()", OUT, ix[0].pred)
    with_root(ctx, report, "w_lookup_role", role)

    for root, kind in (("w_lookup_node_user", "Node"), ("w_lookup_way_user", "Way"), ("w_lookup_rel_user", "Relation")):
        def plain(R, kind=kind):
            S = R.s
            block = R.arg_message(0, "PrimitiveBlock")
            own = own_element(R, block, None, "id", kind)
            if not own:
                report(Ob(f"C05 {kind} user", R.name, detail=f"the reported id is not a stored {kind}'s"))
                return
            hi, I = S.has(own[0][0], 4)
            fp, x = S.opt(I, 5)
            have = p_and(hi, fp)
            lookups(R, report, f"{kind}.info().user()", block, lambda e: [(have, x)])
            ids = R.obs("id")
            every_outcome(R, report, f"{kind}.info().user()", OUT, p_and(ids[0].pred, have))
        with_root(ctx, report, root, plain)

    def dense(R):
        S = R.s
        block = R.arg_message(0, "PrimitiveBlock")
        sites = [x for e in R.obs("id") for x in dense_sites(R, block, e)]
        if not sites:
            report(Ob("C05 dense user", R.name, detail="the reported id is not a stored dense node's"))
            return
        g, D, gi, P = sites[0]
        pi, I = S.has(D, 5)
        tp, tab = table(S, block)
        done = set()

        def idx(e):
            out = {}
            for ev in R.obs("ok", "utf8err"):
                for t in terms_in((ev.args[0], ev.pred)):
                    if t.op == "from_utf8" and isinstance(t.args[0], T) and t.args[0].op == "elem" and t.args[0].args[0] is tab:
                        out[t.args[0].args[1].id] = t.args[0].args[1]
            for x in out.values():
                if x.id not in done:
                    done.add(x.id)
                    check_sum(R, report, "C05 DenseNodeInfo.user() looks up the accumulated index of its node", e, x, I, 5, P, p_and(e.pred, pi), info_lens(R, D))
            return [(pi, x) for x in out.values()]
        lookups(R, report, "DenseNodeInfo.user()", block, idx)
    with_root(ctx, report, "w_lookup_dense_user", dense)

    for root, kind, cols in (("w_node_tags", "Node", (2, 3)), ("w_way_tags", "Way", (2, 3)), ("w_rel_tags", "Relation", (2, 3)), ("w_dense_tags", "DenseNodes", None)):
        def tags(R, kind=kind, cols=cols):
            S, an = R.s, R.an
            block = R.arg_message(0, "PrimitiveBlock")
            tp, tab = table(S, block)
            for nm in ("key", "value"):
                for e in need(R, report, nm, f"C05 {kind} tags"):
                    name = f"C05 {kind}.tags(): the {nm} is the table entry of a stored index"
                    for l, g in split_leaves(con_val(e.args[0], e.pred), p_and(e.pred, tp)):
                        x, why = tag_index(R, block, l, g)
                        if x is None:
                            missing(R, report, name, e, l, g, f"{nm} {short(l)}: {why}")
                            continue
                        t = stored_index(R, x, kind, cols and cols[nm == "value"])
                        if t is None:
                            missing(R, report, name, e, l, g, f"the {nm} is the table entry of {short(x)}, which is not a stored {nm} index")
                        else:
                            report(Ob(name, where(e)))
        with_root(ctx, report, root, tags)

    def accessor(R):
        block = R.arg_message(0, "PrimitiveBlock")
        for e in need(R, report, "stringtable", "C05"):
            tp, tab = table(R.s, block)
            compare_slice(R, report, "C05 PrimitiveBlock.raw_stringtable() is the block's table", e, tab, tp)
    with_root(ctx, report, "w_block_stringtable", accessor)
    for root in ("w_node_raw_tags", "w_way_raw_tags", "w_rel_raw_tags"):
        with_root(ctx, report, root, accessor)


def tag_index(R, block, l, g):
    """index x if the string l is from_utf8(table[x]).Ok, within the table's bounds under g"""
    S, an = R.s, R.an
    tp, tab = table(S, block)
    us = [t for t in terms_in(l) if t.op == "from_utf8"]
    if len(us) != 1:
        return None, "not the decoding of one entry"
    u = us[0]
    el = u.args[0]
    if not (isinstance(el, T) and el.op == "elem" and el.args[0] is tab):
        return None, f"decoded from {short(el)}"
    ue = an.expand(u, u.ty)
    if not same_val(an, l, ue.payload(0)[0], g):
        return None, "not the whole decoded entry"
    x = el.args[1]
    if p_and(g, p_not(map1(lambda y: eq(y, ZERO), ue.d))) is not FALSE:
        return None, "reported although it does not decode"
    if p_and(g, p_not(an.ile(an.iadd(x, ONE), an.len_of(tab)))) is not FALSE:
        return None, "may lie outside of the table"
    return x, None


def stored_index(R, x, kind, col):
    """the element term if x is an element of index column col of a message of this kind"""
    if not isinstance(x, Poly) or x.const or len(x.terms) != 1:
        return None
    (m, c), = x.terms
    if c != 1 or len(m) != 1:
        return None
    t = m[0]
    if t.op == "elem" and isinstance(t.args[0], T) and t.args[0].op == "fld":
        D = t.args[0].args[0]
        if isinstance(D, T) and D.ty is not None and R.s.proto_type(D.ty) == kind and R.s.rep(D, col if col is not None else 10)[0] is t.args[0]:
            return t
    return None


# ---------------------------------------------------------------- C06
def owner_pos(R, block, t, kind):
    """(gi, pj, k) of an element term of a column of an element message"""
    i = elem_ident(R.s, block, t.args[0].args[0])
    return None if i is None else i + (t.args[1],)


def column_term(R, x, kind, cols):
    for c in cols:
        t = stored_index(R, x, kind, c)
        if t is not None:
            return t
    return None


def resolved(R, block, x):
    """the entry at index x exists and is UTF-8"""
    S, an = R.s, R.an
    tp, tab = table(S, block)
    ety = an.ty.elem(S.raw(S.has(block, 1)[1], 1)[1])
    inr = p_and(p_and(tp, test(x, 0, INF)), an.ile(an.iadd(x, ONE), an.len_of(tab)))
    u = utf8_ty(R, None)
    if u is None:
        return inr
    d = an.expand(term("from_utf8", an.elem_of(tab, x, ety), ty=u), u).d
    return p_and(inr, map1(lambda y: eq(y, ZERO), d))


def columns_end(R, block, kind, cols, resolve=False, extra=None):
    S, an = R.s, R.an

    def f(t):
        N = S.relem(S.relem(block, 2, t[0]), LISTS[kind], t[1])
        r = FALSE
        for c in cols:
            r = p_or(r, an.ile(S.rlen(N, c), t[2]))
        if resolve:
            for c in cols:
                r = p_or(r, p_not(resolved(R, block, S.relem(N, c, t[2]))))
        if extra is not None:
            r = p_or(r, extra(N, t[2]))
        return r
    return f


def idents3(R, block, e, kind, cols, strings, report, name):
    """[(guard, (gi, pj, k))] of the position that an event reports"""
    out, rest = [], e.pred
    why = ""
    for l, g in split_leaves(con_val(e.args[0], e.pred), e.pred):
        x = l
        if strings:
            us = [t for t in terms_in(l) if t.op == "from_utf8"]
            x = us[0].args[0].args[1] if len(us) == 1 and isinstance(us[0].args[0], T) and us[0].args[0].op == "elem" else None
        t = column_term(R, x, kind, cols) if x is not None else None
        i = owner_pos(R, block, t, kind) if t is not None else None
        if i is None:
            why = short(l)
            continue
        rest = p_and(rest, p_not(g))
        for n, (g2, i2) in enumerate(out):
            if all(a is b for a, b in zip(i, i2)):
                out[n] = (p_or(g, g2), i)
                break
        else:
            out.append((g, i))
    if rest is not FALSE:
        missing(R, report, name, e, e.args[0], rest, f"the reported value {why} is not taken from the column {' or '.join(SP.NAMES[kind][c] for c in cols)}")
    return out


def same_position(R, report, name, e, ids, refs):
    """the event reports the same position as the reference events of its region"""
    for g, i in ids:
        p = p_and(e.pred, g)
        ok = FALSE
        for d, dids in refs:
            if d.cp != e.cp:
                continue
            for dg, di in dids:
                eqs = TRUE
                for a, b in zip(i, di):
                    eqs = p_and(eqs, eq(a, b))
                ok = p_or(ok, p_and(p_and(d.pred, dg), eqs))
        bad = p_and(p, p_not(ok))
        if bad is FALSE:
            report(Ob(name, where(e)))
        else:
            missing(R, report, name, e, e.args[0], bad, f"reported from position {short(i)} of its column")


@rule("C06", "the positions at which key, value, role, member id and member type columns are read are equal, and advance a (group, element, position) counter one by one up to the shorter column, by induction over the edges between loop heads")
def c06(ctx, report):
    for base, kind in (("node", "Node"), ("way", "Way"), ("rel", "Relation")):
        for suffix, strings in (("tags", True), ("raw_tags", False)):
            def tags(R, kind=kind, strings=strings, suffix=suffix):
                block = R.arg_message(0, "PrimitiveBlock")
                what = f"C06 {kind}.{suffix}()"
                keys = [(e, idents3(R, block, e, kind, (2,), strings, report, f"{what}: the key comes from the key column")) for e in need(R, report, "key", what)]
                for e in need(R, report, "value", what):
                    ids = idents3(R, block, e, kind, (3,), strings, report, f"{what}: the value comes from the value column")
                    same_position(R, report, f"{what}: key and value have the same position", e, ids, keys)
                Coverage(R, [group_end(R, block), list_end(R, block, kind), columns_end(R, block, kind, (2, 3), strings)], keys, what).run(report)
            with_root(ctx, report, f"w_{base}_{suffix}", tags)

    def members(R):
        S, an = R.s, R.an
        block = R.arg_message(0, "PrimitiveBlock")
        what = "C06 Relation.members()"
        roles = [(e, idents3(R, block, e, "Relation", (8,), False, report, f"{what}: the role index comes from the role column")) for e in need(R, report, "role_sid", what)]

        def unknown_type(N, k):
            x = S.relem(N, 10, k)
            v = enum_int(R, S, N, x)
            return p_not(in_range(v, 0, 2))
        for e in need(R, report, "member_id", what):
            for l, g in split_leaves(con_val(e.args[0], e.pred), e.pred):
                name = f"{what}: the member id ends with the delta at the member's position"
                ok = FALSE
                for d, dids in roles:
                    for dg, di in dids:
                        if d.cp != e.cp or not isinstance(l, Poly):
                            continue
                        N = S.relem(S.relem(block, 2, di[0]), 4, di[1])
                        b, ety, c = column(R, N, 9, l)
                        for y in c:
                            ok = p_or(ok, p_and(p_and(d.pred, dg), eq(y, di[2])))
                bad = p_and(g, p_not(ok))
                if bad is FALSE:
                    report(Ob(name, where(e)))
                else:
                    missing(R, report, name, e, l, bad, f"reported {short(l)}")
        for e in need(R, report, "member_type", what):
            name = f"{what}: the member type is the stored one"
            for d, dids in roles:
                for dg, di in dids:
                    if d.cp != e.cp:
                        continue
                    N = S.relem(S.relem(block, 2, di[0]), 4, di[1])
                    v = enum_int(R, S, N, S.relem(N, 10, di[2]))
                    compare(R, report, name, e, e.args[0], v, p_and(p_and(e.pred, d.pred), dg))
        Coverage(R, [group_end(R, block), list_end(R, block, "Relation"), columns_end(R, block, "Relation", (8, 9, 10), extra=unknown_type)], roles, what).run(report)
    with_root(ctx, report, "w_rel_members", members)


def enum_int(R, S, N, x):
    """number stored in an enum element"""
    ty = R.an.ty.elem(S.raw(N, 10)[1])
    return R.an.get_field(x, ty, None, 0)


def in_range(v, a, b):
    return map1(lambda x: FALSE if x is UNDEF else test(x, a, b), v)


# ---------------------------------------------------------------- C07
class DenseTags(Coverage):
    """Positions (group, dense node, index into the group's key/value array)"""

    def __init__(self, R, block, events, what, strings):
        self.block, self.strings = block, strings
        Coverage.__init__(self, R, [group_end(R, block), list_end(R, block, "dense"), self.stop], events, what)

    def array(self, t):
        S = self.R.s
        p, D = S.has(S.relem(self.block, 2, t[0]), 2)
        return p, D

    def delimiter(self, t):
        """no pair starts at this position: a zero key, or fewer than two indices are left"""
        S, an = self.R.s, self.an
        p, D = self.array(t)
        q = t[2]
        kv = S.relem(D, 10, q)
        return p_or(an.ile(S.rlen(D, 10), padd(q, ONE)), map1(lambda x: FALSE if x is UNDEF else test(x, 0, 0), kv))

    def stop(self, t):
        r = self.delimiter(t)
        if self.strings:
            S = self.R.s
            p, D = self.array(t)
            for q in (t[2], padd(t[2], ONE)):
                for x, g in leaves(S.relem(D, 10, q)):
                    if x is not UNDEF:
                        r = p_or(r, p_and(g, p_not(resolved(self.R, self.block, cast_index(x)))))
        return r

    def after(self, idt):
        return idt[:-1] + (padd(idt[-1], num(2)),)

    def scans(self, g, t):
        """[(loop, iteration, count)] of the scan loops that passed over position t"""
        out = []
        F = self.F
        p, D = self.array(t)
        base = self.R.s.rep(D, 10)[0]
        for cid, (n, r) in F.range.items():
            if cid not in g.syms if isinstance(g, Node) else True:
                continue
            for e in terms_in(r):
                if e.op == "elem" and e.args[0] is base and isinstance(e.args[1], Poly) and n.id in {z.id for z in terms_in(e.args[1])}:
                    ix = e.args[1]
                    k = sum(c for m, c in ix.terms if m == (n,))
                    rest = psub(ix, pscale(atom(n), k))
                    if k <= 0 or n.id in {z.id for z in terms_in(rest)}:
                        continue
                    i = F.exact_div(psub(t[2], rest), k)
                    if isinstance(i, Poly):
                        out.append((cid, i, n, ix))
        return out

    def strengthen(self, g, t):
        """what the scan loops found out about the position"""
        if not isinstance(g, Node) or any(not isinstance(x, Poly) for x in t):
            return g
        for cid, i, n, ix in self.scans(g, t):
            passed = p_and(test(i, 0, INF), test(psub(atom(n), i), 1, INF))
            if p_and(g, p_not(passed)) is FALSE:
                g = p_and(g, self.F.earlier(cid, i))
        return g

    def lex_eq(self, a, b, g, depth=0):
        for t, o in ((a, b), (b, a)):
            if t is None or not isinstance(t[2], Poly) or not isinstance(g, Node):
                continue
            for cid, i, n, ix in self.scans(g, t):
                e = eq(i, atom(n))
                if ix is t[2] or p_and(g, e) is FALSE or cid >= max(t[2].syms or (0,)):
                    continue
                # t is where the scan loop stopped: write it in that loop's terms
                t2 = t[:2] + (ix,)
                x, y = (t2, o) if t is a else (o, t2)
                ge = p_and(g, e)
                gn = p_and(g, p_not(e))
                return Coverage.lex_eq(self, x, y, ge, depth) and (gn is FALSE or Coverage.lex_eq(self, a, b, gn, depth))
        return Coverage.lex_eq(self, a, b, g, depth)

    def beyond(self, k, t, g):
        if k < 2:
            return Coverage.beyond(self, k, t, g)
        S = self.R.s
        p, D = self.array(t)
        L = S.rlen(D, 10)
        out = []

        def leave(q, g2):
            """node t[1] ends at its delimiter q"""
            for l, gl in leaves(constrain(L, g2), g2):
                inb = test(psub(l, q), 1, INF)
                for h, d in ((p_and(gl, inb), 1), (p_and(gl, p_not(inb)), 0)):
                    if h is not FALSE:
                        out.append((h, (t[0], padd(t[1], ONE), padd(q, num(d)))))
        at = self.delimiter(t)
        if p_and(g, at) is not FALSE:
            leave(t[2], p_and(g, at))
        rest = p_and(g, p_not(at))
        for cid, i, n, ix in self.scans(g, t) if rest is not FALSE else ():
            # the loop passed over t and stopped at the next delimiter
            inside = p_and(test(i, 0, INF), test(psub(atom(n), i), 0, INF))
            d = self.delimiter(t[:2] + (ix,))
            ok = p_and(rest, p_and(inside, d))
            if ok is not FALSE:
                leave(ix, ok)
                rest = p_and(rest, p_not(ok))
        return out if rest is FALSE else None


def cast_index(x):
    return x


@rule("C07", "the positions of the key/value array at which tags are read advance exactly by pairs from the start of the node's segment to its delimiter, and the next node's segment starts behind it; by induction over the edges between loop heads, with what each scan loop has established for the positions it passed")
def c07(ctx, report):
    for root, strings in [(w + x, y) for w in WALKS for x, y in (("dense_raw_tags", False), ("dense_tags", True))
                          if w + x != "w_el_dense_tags"]:
        def f(R, strings=strings, root=root):
            block = R.arg_message(0, "PrimitiveBlock")
            what = f"C07 DenseNode.{'tags' if strings else 'raw_tags'}()"
            sites = [(e, x) for e in R.obs("id") for x in dense_sites(R, block, e)]

            def kv_ids(e, name):
                out, rest, why = [], e.pred, ""
                for l, g in split_leaves(con_val(e.args[0], e.pred), e.pred):
                    x = l
                    if strings:
                        us = [t for t in terms_in(l) if t.op == "from_utf8"]
                        x = us[0].args[0].args[1] if len(us) == 1 and isinstance(us[0].args[0], T) and us[0].args[0].op == "elem" else None
                    t = stored_index(R, x, "DenseNodes", 10) if x is not None else None
                    gi = dense_group(R.s, block, t.args[0].args[0]) if t is not None else None
                    own = [P for d, (dg, D, dgi, P) in sites if gi is not None and dgi is gi and R.f.alive(R.f.cps[e.cp]).issuperset(P.syms)]
                    if t is None or gi is None or not own:
                        why = short(l)
                        continue
                    rest = p_and(rest, p_not(g))
                    out.append((g, (gi, own[0], t.args[1])))
                if rest is not FALSE:
                    missing(R, report, name, e, e.args[0], rest, f"the reported value {why} is not taken from the array of the node's own group")
                return out
            keys = [(e, kv_ids(e, f"{what}: the key comes from the array")) for e in need(R, report, "key", what)]
            for e in need(R, report, "value", what):
                ids = kv_ids(e, f"{what}: the value comes from the array")
                ids = [(g, i[:2] + (padd(i[2], num(-1)),)) for g, i in ids]
                same_position(R, report, f"{what}: the value follows its key", e, ids, keys)
            DenseTags(R, block, keys, what, strings).run(report)
        with_root(ctx, report, root, f)


# ---------------------------------------------------------------- C08
def group_end(R, block):
    n = R.s.rlen(block, 2)
    return lambda t: map1(lambda x: le(x, t[0]), n)


def list_end(R, block, kind):
    S = R.s

    def f(t):
        G = S.relem(block, 2, t[0])
        if kind == "dense":
            p, D = S.has(G, 2)
            r = p_not(p)
            for c in (1, 8, 9):
                r = p_or(r, R.an.ile(S.rlen(D, c), t[1]))
            return r
        return R.an.ile(S.rlen(G, LISTS[kind]), t[1])
    return f


def idents(R, block, e, kind, report, name):
    """[(guard, (gi, pj))] of the element that an event reports"""
    S, out = R.s, []
    v = con_val(e.args[0], e.pred)
    rest = e.pred
    for l, g in split_leaves(v, e.pred):
        if kind == "dense":
            for t, gi, P in dense_in(R, block, l, 1)[:1]:
                pres, D = dense_msg(S, block, gi)
                out.append((p_and(g, pres), (gi, P)))
                rest = p_and(rest, p_not(p_and(g, pres)))
        else:
            for t, i in elements_in(R, block, l, kind)[:1]:
                out.append((g, i))
                rest = p_and(rest, p_not(g))
    if kind != "dense" and out:
        # a missing required id leaves no trace in the value
        ts = elements_in(R, block, v, kind)
        for t, i in ts:
            q = p_and(rest, p_not(present(S, t, 1)))
            if q is not FALSE:
                out.append((q, i))
                rest = p_and(rest, p_not(q))
    if rest is not FALSE:
        missing(R, report, name, e, v, rest, f"the reported value {short(v)} is not the id of a stored element of this kind")
    merged = []
    for g, i in out:
        for n, (g2, i2) in enumerate(merged):
            if i2[0] is i[0] and i2[1] is i[1]:
                merged[n] = (p_or(g, g2), i)
                break
        else:
            merged.append((g, i))
    return merged


@rule("C08", "the reported elements advance a lexicographic (group, position) counter by exactly one element at a time, from the start to the end of the lists, by induction over the edges between loop heads")
def c08(ctx, report):
    for root in ("w_walk_elements", "w_walk_callback", "w_walk_groups"):
        def walk(R, root=root):
            block = R.arg_message(0, "PrimitiveBlock")
            for nm, kind in (("node", "Node"), ("dense", "dense"), ("way", "Way"), ("rel", "Relation")):
                what = f"C08 {root[2:]}: {kind}"
                evs = []
                for e in R.obs(nm):
                    ids = idents(R, block, e, kind, report, f"{what}: the id is the element's")
                    evs.append((e, ids))
                    if kind != "dense":
                        for g, (gi, pj) in ids:
                            N = R.s.relem(R.s.relem(block, 2, gi), LISTS[kind], pj)
                            compare(R, report, f"{what}: the id is the stored id", e, e.args[0], R.s.val(N, 1), p_and(p_and(e.pred, g), present(R.s, N, 1)))
                Coverage(R, [group_end(R, block), list_end(R, block, kind)], evs, what).run(report)
        with_root(ctx, report, root, walk)


from . import ioprops, decprops, auditprops, typeprops, wireprops, errprops, readprops, panicprops, lenprops, idxprops, depprops
