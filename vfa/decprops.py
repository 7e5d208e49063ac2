"""Rules about the type of a blob and decoding its content."""
from .ioprops import *
from .models import str_eq
from .facts import terms_in

BLOCKS = {"header": "osmpbf::proto::osmformat::HeaderBlock", "data": "osmpbf::proto::osmformat::PrimitiveBlock"}


def over(an, msg, f):
    """f(message) -> tuple of diagrams, over all leaves of msg"""
    ls = [(l, g) for l, g in leaves(msg) if l is not UNDEF] if not isinstance(msg, (T, Agg)) else [(msg, TRUE)]
    out = None
    for l, g in ls:
        r = f(l)
        out = list(r) if out is None else [ite(g, x, y) for x, y in zip(r, out)]
    return out


def str_type(an):
    return next(i for i, t in enumerate(an.ty.t) if t["k"] == "ref" and an.ty[t["to"]]["k"] == "str")


def text(an, s):
    return term("str", s, ty=str_type(an))


def type_string(R, header):
    """The type string of a blob header message ("" if it is absent)"""
    an = R.an
    sty = str_type(an)

    def f(m):
        p, x = R.s.opt(m, 1)
        return [ite(p, map1(lambda t: t if t is UNDEF else term("str_of", t, ty=sty), x), text(an, ""))]
    return over(an, header, f)[0]


class Typed:
    """How the type of a blob with this header is classified"""

    def __init__(self, R, header):
        self.s = type_string(R, header)
        self.header = map1(lambda x: FALSE if x is UNDEF else str_eq(x, text(R.an, "OSMHeader")), self.s)
        self.data = map1(lambda x: FALSE if x is UNDEF else str_eq(x, text(R.an, "OSMData")), self.s)
        self.unknown = p_not(p_or(self.header, self.data))


class Payload:
    """What decoding the Blob message `blob` as a message of type `name` gives"""

    def __init__(self, R, blob, name):
        an, S = R.an, R.s
        self.ty = ty = proto_ty(an, name)
        self.raw, rv, self.z, zv = over(an, blob, lambda m: (*S.one(m, 1), *S.one(m, 3)))
        self.raw, self.z = p_and(self.raw, TRUE), p_and(self.z, p_not(self.raw))
        self.n = map1(lambda x: x if x is UNDEF else an.len_of(x), rv)
        hr = map1(lambda x: x if x is UNDEF else term("mem", x), rv)
        hz = map1(lambda x: x if x is UNDEF else term("inflate", term("mem", x), ZERO, an.len_of(x)), zv)
        lim = num(MESSAGE_LIMIT)

        def parse(h, n):
            bad = lift(lambda a, m: test(atom(term("parse", name, a, ZERO, m, lo=0, hi=1)), 1, 1), h, n)
            return bad, lift(lambda a, m: an.mk(term("msg", name, a, ZERO, m, ty=ty), ty), h, n), lift(lambda a, m: term("perr", name, a, ZERO, m), h, n)
        rbad, rmsg, rerr = parse(hr, self.n)
        zbad, zmsg, zerr = parse(hz, lim)
        rd = lift(lambda a: atom(term("rd", a, ZERO, lim, lo=0, hi=2)), hz)
        self.raw_big = p_and(self.raw, is_(self.n, MESSAGE_LIMIT, INF))
        raw_in = p_and(self.raw, p_not(is_(self.n, MESSAGE_LIMIT, INF)))
        self.raw_bad = p_and(raw_in, rbad)
        self.z_bad = p_and(self.z, zbad)
        self.z_full = p_and(self.z, is_(rd, 0))
        self.empty = p_not(p_or(self.raw, self.z))
        self.bad = p_or(self.raw_bad, self.z_bad)
        self.ok = p_or(p_and(raw_in, p_not(rbad)), p_and(self.z, p_and(p_not(zbad), p_not(is_(rd, 0)))))
        self.msg = ite(self.raw, rmsg, zmsg)
        self.err = ite(self.raw, rerr, zerr)


def names(prefix):
    return [prefix + x for x in ERRORS]


class Scene:
    """The events of one cut point"""

    def __init__(self, R, cp=None):
        self.evs = [e for e in R.f.events if cp is None or e.cp == cp]

    def when(self, *ns):
        p = FALSE
        for e in self.evs:
            if e.kind == "obs" and e.name in ns:
                p = p_or(p, e.pred)
        return p

    def each(self, *ns):
        return [e for e in self.evs if e.kind == "obs" and e.name in ns]

    def io(self, n):
        return [e for e in self.evs if e.kind == "io" and e.name == n]


def decoding(R, C, sc, at, prefix, ok_name, pay, g, want, kind=None):
    """The outcome of decoding where g holds"""
    errs = sc.when(*names(prefix))
    if "decode" in want:
        C.implies(f"{prefix} content that can be decoded is returned", at, p_and(g, pay.ok), sc.when(ok_name), "it is not returned")
        C.implies(f"{prefix} a failure is reported", at, p_and(g, p_not(pay.ok)), errs, "no error is reported")
        C.implies(f"{prefix} an empty blob gives the empty error", at, p_and(g, pay.empty), sc.when(prefix + "empty"), "it does not")
    if "limits" in want:
        C.implies(f"{prefix} raw content of 32 MiB or more is too big", at, p_and(g, pay.raw_big), sc.when(prefix + "message_too_big"), "it is not rejected as such")
        C.implies(f"{prefix} inflated content of 32 MiB or more is rejected", at, p_and(g, pay.z_full), errs, "it is cut off and accepted")
    for e in sc.each(ok_name):
        p = p_and(e.pred, g)
        if "decode" in want or "limits" in want:
            C.implies(f"{prefix} only content that can be decoded is returned", e, p, pay.ok, "content is returned although decoding did not work")
        if "decode" in want:
            holds_message(C, f"{prefix} the message is the content of the blob's payload", e, e.args[0], pay.ty, pay.msg, p)
    for e in sc.each(*names(prefix)):
        p = p_and(e.pred, g)
        if p is FALSE:
            continue
        short_ = e.name[len(prefix):]
        if "decode" in want:
            C.implies(f"{prefix} error '{short_}' has a cause", e, p, p_not(pay.ok), "an error although the content can be decoded")
        if short_ == "message_too_big":
            if "limits" in want or "decode" in want:
                C.implies(f"{prefix} 'too big' means that", e, p, p_or(pay.raw_big, pay.z_full), "reported for content that is not too big")
                C.equal(f"{prefix} the reported size is the size", e, e.args[0], pay.n, p_and(p, pay.raw_big))
        elif "decode" in want:
            if short_ == "empty":
                C.implies(f"{prefix} 'empty' means that", e, p, pay.empty, "reported for a blob with content")
            elif short_ == "protobuf":
                C.implies(f"{prefix} a protobuf error means that parsing failed", e, p, pay.bad, "reported although nothing failed to parse")
                for word, q in (("raw", pay.raw_bad), ("zlib", pay.z_bad)):
                    has = map1(lambda x: FALSE if x is UNDEF else (TRUE if isinstance(x, T) and x.op == "str" and word in x.args[0] else FALSE), con_val(e.args[0], p_and(p, q)))
                    C.implies(f"{prefix} the location names the payload ({word})", e, p_and(p, q), has, "the location is that of something else")
            else:
                C.implies(f"{prefix} no other error", e, p, FALSE, f"error '{short_}'")
    for e in sc.each(prefix + "protobuf_error"):
        if "decode" in want:
            C.equal(f"{prefix} the error is the one of parsing the payload", e, e.args[0], pay.err, p_and(p_and(e.pred, g), pay.bad))


def parsing(R, C, sc, pays, g, want):
    """Limits of what is parsed"""
    if "limits" not in want:
        return
    for e in sc.io("parse"):
        h, p, n, ty = e.args
        if ty not in [x.ty for x in pays]:
            continue
        q = p_and(e.pred, g)
        infl = map1(lambda x: FALSE if x is UNDEF else (TRUE if isinstance(x, T) and x.op == "inflate" else FALSE), h)
        C.implies("decompression stops at 32 MiB", e, p_and(q, infl), is_(n, 0, MESSAGE_LIMIT), "more may be produced")
        C.implies("content is parsed only if it is smaller than 32 MiB", e, p_and(q, p_not(infl)), is_(n, 0, MESSAGE_LIMIT - 1), "larger content may be parsed")


def typing(R, C, sc, at, t, g, want):
    if "type" not in want:
        return
    for nm, p in (("type_header", t.header), ("type_data", t.data), ("type_unknown", t.unknown)):
        C.implies(f"the type query reports '{nm[5:]}' for exactly those strings", at, p_and(g, p), sc.when(nm), "it reports something else")
        for e in sc.each(nm):
            q = p_and(e.pred, g)
            C.implies(f"the type query reports '{nm[5:]}' only then", e, q, p, "it is reported for another string")
            if nm == "type_unknown":
                C.equal("the unknown type is reported with its string", e, e.args[0], t.s, q)


def whole(R, C, sc, at, t, hp, dp, g, want, extra=FALSE):
    """decode(): by type"""
    if "type" in want:
        for nm, p in (("dec_header", p_and(t.header, hp.ok)), ("dec_data", p_and(t.data, dp.ok)), ("dec_unknown", t.unknown)):
            C.implies(f"decoding gives '{nm[4:]}' for blobs of that type", at, p_and(p_and(g, p_not(extra)), p), sc.when(nm), "it gives something else")
            for e in sc.each(nm):
                q = p_and(e.pred, g)
                C.implies(f"decoding gives '{nm[4:]}' only for blobs of that type", e, q, p, "the kind does not belong to the type")
                if nm == "dec_unknown":
                    C.equal("the unknown type is returned with its string", e, e.args[0], t.s, q)
        for e in sc.each(*names("dec_")):
            C.implies("only header and data blobs fail to decode", e, p_and(e.pred, g), p_or(extra, p_not(t.unknown)), "an unknown blob is an error")
    g = p_and(g, p_not(extra))
    only = lambda p: Scened(sc, p)
    decoding(R, C, only(t.header), at, "dec_", "dec_header", hp, p_and(g, t.header), want)
    decoding(R, C, only(t.data), at, "dec_", "dec_data", dp, p_and(g, t.data), want)


class Scened(Scene):
    def __init__(self, sc, p):
        self.evs = [e for e in sc.evs if p_and(e.pred, p) is not FALSE]


def blob_rules(ctx, report, want):
    def f(R):
        an = R.an
        b = R.arg_message(0, "Blob")
        t = Typed(R, R.arg_message(0, "BlobHeader"))
        sc, at = Scene(R), R.f.events[0]
        C = Checker(R, report, "stream blob")
        hp, dp = Payload(R, b, BLOCKS["header"]), Payload(R, b, BLOCKS["data"])
        typing(R, C, sc, at, t, TRUE, want)
        whole(R, C, sc, at, t, hp, dp, TRUE, want)
        decoding(R, C, sc, at, "hdr_", "hdr_header", hp, TRUE, want)
        decoding(R, C, sc, at, "dat_", "dat_data", dp, TRUE, want)
        parsing(R, C, sc, (hp, dp), TRUE, want)
    with_root(ctx, report, "i_blob", f, "io")

    def g(R):
        h = R.arg_message(0, "BlobHeader")
        sc, at = Scene(R), R.f.events[0]
        C = Checker(R, report, "blob header")
        typing(R, C, sc, at, Typed(R, h), TRUE, want)
        for e in sc.each("size"):
            if "type" in want:
                C.equal("the size is the announced one", e, e.args[0], R.s.val(h, 3), p_and(e.pred, R.s.opt(h, 3)[0]))
    with_root(ctx, report, "i_blob_header", g, "io")

    def s(R):
        C = Checker(R, report, "type")
        for e in Scene(R).each("as_str"):
            v = R.an.entry_cp.store[R.an.lroot(R.an.g.root, 1)]
            ty = R.an.ty.pointee(R.an.body["locals"][1])
            x = R.an.expand(R.an.read_lv(State(TRUE, {}), R.an.targets(v, ty), ty), ty)
            vs = {q["name"]: i for i, q in enumerate(R.an.ty[ty]["variants"])}
            want_ = ite(is_(x.d, vs["OsmHeader"]), text(R.an, "OSMHeader"), ite(is_(x.d, vs["OsmData"]), text(R.an, "OSMData"), x.payload(vs["Unknown"])[0]))
            C.equal("as_str gives the type string", e, e.args[0], want_, e.pred)
    if "type" in want:
        with_root(ctx, report, "i_as_str", s, "io")


def cursor(R, cp):
    """The position of the next record as the reader's own offset report gives it, in the symbols of cut point cp"""
    for e in R.f.events:
        if e.cp == cp and e.kind == "obs" and e.name == "map_offset":
            v = e.args[0]
            v = v.kids[0] if isinstance(v, Agg) else v
            return con_val(v, e.pred)
    return None


def memory(R):
    """(handle, length) of the mapped bytes"""
    for e in R.f.events:
        if e.kind == "io" and e.name == "read":
            h = e.args[0]
            if isinstance(h, T) and h.op == "mem":
                return h
    return None


def map_len(R):
    """The length of the memory map behind argument 0"""
    an = R.an
    v = an.entry_cp.store[an.lroot(an.g.root, 1)]
    todo, ty = v, an.ty.pointee(an.body["locals"][1])
    m = an.read_lv(State(TRUE, {}), an.targets(v, ty), ty)
    mm = map_in(an, m, ty)
    ref = term("mapped", mm)
    return ref, atom(term("len", ref, lo=0, hi=(1 << 63) - 1))


def map_in(an, v, ty, depth=0):
    if an.ty[ty]["k"] == "adt":
        if an.ty[ty]["path"] == "memmap2::Mmap":
            return v
        if an.ty[ty]["kind"] == "struct" and depth < 4:
            for i, (n, ft) in enumerate(an.ty.fields(ty)):
                x = map_in(an, an.get_field(v, ty, None, i), ft, depth + 1)
                if x is not None:
                    return x
    return None


def mapped(ctx, report, want):
    def f(R):
        an, F = R.an, R.f
        ref, ln = map_len(R)
        h = memory(R)
        if h is None:
            report(Ob("mapped bytes are read", R.name, detail="the mapped bytes are never read"))
            return
        good_handle = any(t is ref for t in terms_in((h,)))
        nexts = R.obs("next")
        C0 = Checker(R, report, f"map [{R.name}]")
        report(Ob("the bytes that are read are those of the map", where(nexts[0]), detail=None if good_handle else f"{h!r}"))
        for e in R.obs("next", "seek"):
            st = Step(R, e)
            C = Checker(R, report, f"{e.name} [{R.name}]")
            B = st.B
            P = cursor(R, e.cp)
            if e.name == "next":
                failed = con_val(e.args[0], B)
                dead, run = p_and(B, is_(failed, 1)), p_and(B, is_(failed, 0))
                none, items, errs = st.when("none"), st.when("map_blob"), st.when(*ERRORS)
                if "end" in want and dead is not FALSE:
                    C.implies("after an error iteration is at its end", e, dead, none, "something else than the end is returned")
                    for x in st.io("read") + st.io("parse"):
                        C.implies("after an error nothing is read", x, p_and(x.pred, dead), FALSE, "the map is still read")
                if run is FALSE:
                    continue
                if P is None:
                    report(Ob(f"map: blobs are returned [{R.name}]", where(e), detail=f"no blob is ever returned when {short(run, 200)}"))
                    continue
                rec = Record(R, h, P, end=ln)
                if "framing" in want:
                    C.implies("an intact record is returned", e, p_and(run, p_and(rec.fits, present_size(R, rec))), items, "an intact record is not returned")
                    C.implies("only intact records are returned", e, p_and(run, items), rec.fits, "a record is returned although it is not intact")
                    for x in st.each("map_offset"):
                        v = x.args[0].kids[0] if isinstance(x.args[0], Agg) else x.args[0]
                        C.equal("the offset is the position of the length field", x, v, P, p_and(run, x.pred))
                    for x in st.each("map_blob"):
                        holds_message(C, "the header is parsed from the announced bytes", x, x.args[0], rec.hty, rec.header, p_and(run, x.pred))
                if "eof" in want:
                    C.implies("the end is reported only at the end of the map", e, p_and(run, none), rec.none, "a failure is taken for the end")
                    C.implies("the end of the map is the end of iteration", e, p_and(run, rec.none), none, "the end is not reported as such")
                    C.implies("a record that does not fit is an error", e, p_and(run, p_and(p_not(rec.fits), p_not(rec.none))), errs, "no error is reported")
                if "limits" in want:
                    C.implies("a header of 64 KiB or more is rejected as too big", e, p_and(run, rec.too_big), st.when("header_too_big"), "it is not")
                    for x in st.io("parse"):
                        if x.args[3] == rec.hty:
                            C.implies("the header is read only if it is smaller than 64 KiB", x, p_and(x.pred, run), is_(rec.H, -INF, LIMIT - 1), "header bytes are consumed before the check")
                errors(R, C, st, rec, run, want, True, inside=True)
                tgt, ok = rec.next, p_and(run, rec.fits)
            else:
                tgt, ok = e.args[0], B
            for x in F.outs.get(e.cp, []):
                q = p_and(x.pred, ok)
                if q is FALSE:
                    continue
                P2 = cursor(R, x.dst)
                if P2 is None:
                    if "seek" in want or "framing" in want:
                        report(Ob(f"map: {e.name} continues at the right position", where(e), detail="iteration is over although it should continue"))
                    continue
                pos = con_val(F.on_edge(x, P2), q)
                if e.name == "seek" and ("seek" in want or "framing" in want):
                    C.equal("iteration continues at the position", e, pos, tgt, q)
                if e.name == "next":
                    if "framing" in want:
                        C.equal("the reader moves by exactly the record", e, pos, tgt, q)
                    if "progress" in want:
                        C.implies("every item moves the position forward", e, q, forward(rec, pos, P), "the position may stay where it was")
        if "framing" in want or "seek" in want:
            for x in F.outs.get(0, []):
                P2 = cursor(R, x.dst)
                if P2 is not None:
                    C0.equal("iteration starts at the beginning", nexts[0], F.on_edge(x, P2), ZERO, x.pred)
    with_root(ctx, report, "i_map", f, "io")


def map_blob(ctx, report, want):
    """Blobs of a memory map: their type and content"""
    def f(R):
        an, F = R.an, R.f
        ref, ln = map_len(R)
        h = memory(R)
        offs = R.obs("map_offset")
        if h is None or not offs:
            report(Ob("blobs of a map are returned", R.name, detail="never"))
            return
        for e in offs:
            P = cursor(R, e.cp)
            rec = Record(R, h, P, end=ln)
            g = e.pred
            sc = Scene(R, e.cp)
            C = Checker(R, report, "map blob")
            t = Typed(R, rec.header)
            hp, dp = Payload(R, rec.blob, BLOCKS["header"]), Payload(R, rec.blob, BLOCKS["data"])
            g = p_and(g, p_and(rec.fits, present_size(R, rec)))
            typing(R, C, sc, e, t, g, want)
            fails = rec.blob_bad
            if "decode" in want or "content" in want:
                C.implies("content that does not parse is an error", e, p_and(g, fails), sc.when(*names("dec_")), "it is not")
                for x in sc.each("dec_protobuf_error"):
                    C.equal("the error is the one of parsing the content", x, x.args[0], rec.blob_err, p_and(p_and(x.pred, g), fails))
                for x in sc.each("dec_protobuf"):
                    has = map1(lambda y: FALSE if y is UNDEF else (TRUE if isinstance(y, T) and y.op == "str" and "content" in y.args[0] else FALSE), con_val(x.args[0], p_and(p_and(x.pred, g), fails)))
                    C.implies("the location names the content", x, p_and(p_and(x.pred, g), fails), has, "the location is that of something else")
            if "content" in want:
                for x in sc.io("parse"):
                    if x.args[3] == rec.bty:
                        q = p_and(x.pred, g)
                        C.equal("the content starts behind the header", x, x.args[1], rec.p2, q)
                        C.equal("the content has the announced size", x, x.args[2], rec.D, q)
                        C.equal("the content lies in the map", x, x.args[0], h, q)
            whole(R, C, sc, e, t, hp, dp, g, want, fails)
            parsing(R, C, sc, (hp, dp), g, want)
    with_root(ctx, report, "i_map_blob", f, "io")


@rule("C12", "as for streams: typestate of the memory-mapped reader under every history of commands, with the record that the format describes at the cursor's position in the mapped bytes; the content that is decoded is parsed from exactly the announced bytes")
def c12(ctx, report):
    mapped(ctx, report, {"framing", "eof", "seek"})
    map_blob(ctx, report, {"content"})


@rule("C13", "every parse event of a header is guarded by the length being below 64 KiB, every parse of block content by the size being below 32 MiB or by a decompression limit of 32 MiB whose exhaustion leads to an error")
def c13(ctx, report):
    stream(ctx, report, {"limits"})
    mapped(ctx, report, {"limits"})
    blob_rules(ctx, report, {"limits"})
    map_blob(ctx, report, {"limits"})


@rule("C14", "typestate of the readers under every history of commands: after an error the only observable result is the end and no event on the source is reachable; canonical order of the position after an item and before it")
def c14(ctx, report):
    stream(ctx, report, {"end", "progress"})
    files(ctx, report, {"end", "progress"})
    mapped(ctx, report, {"end", "progress", "seek"})


@rule("C16", "classification by canonical form of the guards: each observable kind is reported exactly under equality of the type string with the published constant, in all type queries and decodings")
def c16(ctx, report):
    blob_rules(ctx, report, {"type"})
    map_blob(ctx, report, {"type"})


@rule("C17", "the decoded message is, by value numbering, the result of parsing the blob's own payload under the guard of that payload's presence; every other guard leads to the error that belongs to it")
def c17(ctx, report):
    blob_rules(ctx, report, {"decode"})
    map_blob(ctx, report, {"decode"})


@rule("C15", "each observable result of each operation implies or is implied by the outcomes of the steps (read, seek, open, map, parse, decompress) that it is made from; every failing outcome reaches an error result")
def c15(ctx, report):
    want = {"eof", "errors", "created", "at", "seek"}
    stream(ctx, report, want)
    files(ctx, report, want)
    maps(ctx, report, want)
    mapped(ctx, report, want)
    blob_rules(ctx, report, {"decode", "limits"})
    map_blob(ctx, report, {"decode", "limits"})


@rule("C26", "the result of random access equals the record specification at the given offset in every state of the reader (most general client); seeking re-establishes the initial typestate")
def c26(ctx, report):
    stream(ctx, report, {"at", "seek", "end"})
    mapped(ctx, report, {"seek", "eof", "framing", "end"})
