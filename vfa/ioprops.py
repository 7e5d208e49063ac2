"""Rules about reading blobs: framing, limits, the end of iteration, errors, offsets, random access."""
from .rules import *
from .engine import State
from . import spec as SP
from .props import rule, with_root, RULES
from .iomodels import U64, io_payload, kind_index, lift

HEADER = "osmpbf::proto::fileformat::BlobHeader"
BLOB = "osmpbf::proto::fileformat::Blob"
LIMIT = 64 * 1024
MESSAGE_LIMIT = 32 * 1024 * 1024


def is_(v, lo, hi=None):
    hi = lo if hi is None else hi
    return map1(lambda x: FALSE if x is UNDEF else test(x, lo, hi), v)


def proto_ty(an, name):
    for i, t in enumerate(an.ty.t):
        if t["k"] == "adt" and t["path"] == name:
            return i
    raise SpecError(f"no type {name}")


class Record:
    """The record at position P of a source or of memory, as the format describes it."""

    def __init__(self, R, h, P, end=None):
        """end: length of the memory; None: a source"""
        an, S = R.an, R.s
        self.P = P
        hty, bty = proto_ty(an, HEADER), proto_ty(an, BLOB)
        self.hty, self.bty = hty, bty

        def rd(p, n):
            if end is not None:
                return ite(an.ile(an.iadd(p, n), end), ZERO, ONE)
            return lift(lambda a, b, m: ZERO if m.is_const() and m.const == 0 else atom(term("rd", a, b, m, lo=0, hi=2)), h, p, n)

        def parse(ty, p, n):
            nm = an.ty.name(ty)
            bad = lift(lambda a, b, m: test(atom(term("parse", nm, a, b, m, lo=0, hi=1)), 1, 1), h, p, n)
            msg = lift(lambda a, b, m: an.mk(term("msg", nm, a, b, m, ty=ty), ty), h, p, n)
            err = lift(lambda a, b, m: term("perr", nm, a, b, m), h, p, n)
            return bad, msg, err
        if end is None:
            left = lift(lambda a, b: atom(term("left", a, b, num(4), lo=1, hi=4)), h, P)
            kind = lift(lambda a, b: atom(term("readkind", a, b, num(4), lo=0, hi=63)), h, P)
            own = p_and(is_(rd(P, num(4)), 2), map1(lambda x: FALSE if x is UNDEF else eq(x, kind_index(an, "UnexpectedEof")), kind))
            self.none = p_and(p_or(is_(rd(P, num(4)), 1), own), is_(left, 4))
            self.size_lost = p_and(p_not(is_(rd(P, num(4)), 0)), p_not(self.none))
        else:
            self.none = an.ile(end, P)
            self.size_lost = p_and(p_not(self.none), p_not(an.ile(an.iadd(P, num(4)), end)))
        has_size = p_not(p_or(self.none, self.size_lost))
        self.H = lift(lambda a, b: atom(term("bytes", a, b, 4, "be", False, lo=0, hi=(1 << 32) - 1)), h, P)
        self.too_big = p_and(has_size, is_(self.H, LIMIT, INF))
        ok = p_and(has_size, p_not(is_(self.H, LIMIT, INF)))
        p1 = an.iadd(P, num(4))
        self.header_bad, self.header, self.header_err = parse(hty, p1, self.H)
        self.header_short = p_not(is_(rd(p1, self.H), 0))
        self.D = S.val(self.header, 3)
        self.negative = is_(self.D, -INF, -1)
        self.header_ok = p_and(ok, p_and(p_not(self.header_bad), p_and(p_not(self.header_short), p_not(self.negative))))
        p2 = an.iadd(p1, self.H)
        self.p1, self.p2 = p1, p2
        self.blob_bad, self.blob, self.blob_err = parse(bty, p2, self.D)
        self.blob_short = p_not(is_(rd(p2, self.D), 0))
        self.good = p_and(self.header_ok, p_and(p_not(self.blob_bad), p_not(self.blob_short)))
        self.next = an.iadd(p2, self.D)
        self.fits = p_and(self.header_ok, p_not(self.blob_short))


def present_size(R, rec):
    """The header has its (required) data size"""
    return R.s.opt(rec.header, 3)[0]


def find_src(v):
    """The source inside of a stored value"""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Agg):
            if x.tag == "src":
                return x
            todo.extend(x.kids)
        elif isinstance(x, En):
            for _, k in x.vs:
                todo.extend(k)
    return None


def src_of(store, live=None):
    for r, v in store.items():
        s = find_src(v)
        if s is not None:
            return s
    return None


class Step:
    """One turn of the client's loop for one command"""

    def __init__(self, R, e):
        self.R, self.F, self.e, self.cp = R, R.f, e, e.cp
        self.B = e.pred
        self.evs = [x for x in R.f.events if x.cp == e.cp and p_and(x.pred, e.pred) is not FALSE and x is not e]

    def when(self, *names):
        p = FALSE
        for x in self.evs:
            if x.kind == "obs" and x.name in names:
                p = p_or(p, p_and(x.pred, self.B))
        return p

    def each(self, *names):
        return [x for x in self.evs if x.kind == "obs" and x.name in names]

    def io(self, name):
        return [x for x in self.evs if x.kind == "io" and x.name == name]


ERRORS = ("io", "protobuf", "invalid_header_size", "header_too_big", "message_too_big", "empty", "other_error")


class Checker:
    def __init__(self, R, report, what, tag=""):
        self.R, self.report, self.what = R, report, what

    def implies(self, name, e, p, q, detail):
        """obligation: wherever p holds, q holds"""
        nm = f"{self.what}: {name}"
        bad = p_and(p, p_not(q))
        if bad is FALSE:
            self.report(Ob(nm, where(e)))
        elif self.R.tainted(bad):
            self.report(Ob(nm, where(e), undecided=f"depends on calls outside of the analysis ({self.R.unknown_names()})"))
        else:
            self.report(Ob(nm, where(e), detail=f"{detail}: when {short(bad, 260)}"))

    def equal(self, name, e, v, want, p):
        compare(self.R, self.report, f"{self.what}: {name}", e, v, want, p)


def en_disc(an, v, ty):
    return an.disc(v, ty)


def same_offset(C, name, e, known, P, B):
    """A reported Option<ByteOffset>: exactly P if the position is known, else absent or P"""
    an = C.R.an
    v = con_val(e.args[0], p_and(e.pred, B))
    v = an.expand(v, e.extra)
    p = p_and(e.pred, B)
    some = is_(v.d, 1)
    C.implies(f"{name}: an offset is reported if the position is known", e, p_and(p, known), some, "no offset is reported")
    pl = v.payload(1)
    if pl is not None:
        x = pl[0]
        if isinstance(x, Agg):
            x = x.kids[0]
        else:
            x = an.get_field(x, an.ty[e.extra]["args"][0], None, 0)
        C.equal(f"{name}: the offset is the position of the length field", e, x, P, p_and(p, some))


def message_in(R, v, ty):
    """Values of message type ty inside of v: scalar diagrams whose leaves are messages"""
    out = []
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Agg):
            # a message that was taken apart and put together again
            if x.tag == R.an.ty[ty].get("path"):
                out.append(x)
            else:
                todo.extend(x.kids)
        elif isinstance(x, En):
            for _, k in x.vs:
                todo.extend(k)
        else:
            ls = [l for l, _ in leaves(x) if l is not UNDEF]
            if ls and all(isinstance(l, T) and l.ty == ty for l in ls):
                out.append(x)
    return out


def holds_message(C, name, e, v, ty, want, p):
    ms = message_in(C.R, con_val(v, p), ty)
    if not ms:
        missing(C.R, C.report, f"{C.what}: {name}", e, v, p, f"no such message in {short(v)}")
    for m in ms:
        C.equal(name, e, m, want, p)


def obs_pair(e):
    v = e.args[0]
    if isinstance(v, Agg):
        return v.kids
    raise SpecError("unexpected observation")


def stream(ctx, report, want):
    """Obligations about the stream reader; want: set of topics"""
    for root in ("i_known", "i_unknown"):
        with_root(ctx, report, root, lambda R: stream_root(R, report, want, root), "io")


def stream_root(R, report, want, root):
    an, F = R.an, R.f
    steps = R.obs("next", "header", "seek", "seek_raw", "at")
    if {e.name for e in steps} != {"next", "header", "seek", "seek_raw", "at"}:
        report(Ob(f"{root}: all commands are analysed", R.name, detail="some commands are never reached"))
        return
    for e in steps:
        st = Step(R, e)
        src = src_of(F.cps[e.cp].store)
        if src is None:
            report(Ob(f"{root}: the source is part of the reader", R.name, undecided="the source is not found in the reader"))
            return
        h, P = src.kids
        P = resolve(R, e.cp, P)
        C = Checker(R, report, f"{e.name} [{root}]")
        if e.name in ("next", "header"):
            item(R, C, st, h, P, want, e.name == "header")
        elif e.name == "at":
            at(R, C, st, h, P, want)
        else:
            seeking(R, C, st, h, P, want)
    if "created" in want and root == "i_known":
        C = Checker(R, report, root)
        src = R.an.entry_cp.store
        c = F.cps[0]
        for e in F.events:
            if e.cp == 0 and e.kind == "obs" and e.name in ("created",):
                bad = p_and(e.pred, is_poserr(R))
                C.implies("the reader exists only if the position of its source is known", e, e.pred, p_not(is_poserr(R)), "the failure is ignored")


def is_poserr(R):
    p = FALSE
    for e in R.f.events:
        if e.kind == "io" and e.name == "position" and e.cp == 0:
            p = p_or(p, lift(lambda h, q: test(atom(term("poserr", h, q, lo=0, hi=1)), 1, 1), *e.args[:2]))
    return p


def resolve(R, cp, v):
    m = R.f.sol.get(cp, {})
    return Subst(R.an, m)(v) if m else v


def kind_is(R, e, *names):
    """Predicate: the reported I/O error kind is one of names"""
    v = R.an.expand(con_val(e.args[0], e.pred), e.extra)
    p = FALSE
    for n in names:
        k = kind_index(R.an, n)
        p = p_or(p, map1(lambda x: FALSE if x is UNDEF else eq(x, k), v.d))
    return p


def errors(R, C, st, rec, B, want, header, extra=FALSE, none_is_error=False, inside=False):
    """Reported errors have a cause, and belong to it"""
    size_err = rec.size_lost
    hdr_parse = p_and(reach_header(rec), rec.header_bad)
    hdr_short = p_and(reach_header(rec), rec.header_short)
    neg = p_and(reach_header(rec), rec.negative)
    content = p_and(rec.header_ok, rec.blob_short) if inside else FALSE if header else p_and(rec.header_ok, p_or(rec.blob_bad, rec.blob_short))
    cause = p_or(p_or(p_or(size_err, rec.too_big), p_or(hdr_parse, p_or(hdr_short, neg))), p_or(content, extra))
    if none_is_error:
        cause = p_or(cause, rec.none)
    for x in st.each(*ERRORS):
        p = p_and(x.pred, B)
        if p is FALSE:
            continue
        if "errors" in want:
            C.implies(f"the error '{x.name}' has a cause", x, p, cause, "an error is reported although the record is intact")
        if x.name == "header_too_big" and "limits" in want:
            C.implies("the error 'header too big' means that", x, p, rec.too_big, "reported for a header that is not too big")
            C.equal("the error 'header too big' reports the length", x, x.args[0], rec.H, p)
        if "errors" in want:
            if x.name == "invalid_header_size":
                C.implies("the error 'invalid header size' means that", x, p, size_err, "reported although the size was read")
            if x.name == "protobuf":
                C.implies("a protobuf error means that parsing failed", x, p, p_or(hdr_parse, FALSE if header else p_and(rec.header_ok, rec.blob_bad)), "reported although nothing failed to parse")
            if x.name in ("message_too_big", "empty", "other_error"):
                C.implies(f"no error '{x.name}' from framing", x, p, FALSE, "unexpected kind of error")
            if x.name == "io":
                short = p_or(hdr_short, FALSE if header and not inside else p_and(rec.header_ok, rec.blob_short))
                if none_is_error:
                    short = p_or(short, rec.none)
                C.implies("an I/O error from framing", x, p, p_or(p_or(short, neg), p_or(extra, size_err)), "reported although no read failed")
                C.implies("an unexpected end is reported as such", x, p_and(p, p_and(short, p_not(p_or(neg, p_or(extra, size_err))))), kind_is(R, x, "UnexpectedEof"), "a different kind of error")
                C.implies("a negative size is reported as invalid data", x, p_and(p, p_and(neg, p_not(p_or(short, p_or(extra, size_err))))), kind_is(R, x, "InvalidData"), "a different kind of error")
    for x in st.each("protobuf_error"):
        p = p_and(x.pred, B)
        if p is not FALSE and "errors" in want:
            w = rec.header_err if header else ite(hdr_parse, rec.header_err, rec.blob_err)
            C.equal("the protobuf error is the one of the failed step", x, x.args[0], w, p_and(p, cause))


def reach_header(rec):
    """the header is looked at"""
    return p_not(p_or(p_or(rec.none, rec.size_lost), rec.too_big))


def item(R, C, st, h, P, want, header):
    an = R.an
    failed, unclear, known = (con_val(x, st.B) for x in obs_pair(st.e))
    B = st.B
    rec = Record(R, h, P)
    dead = p_and(B, p_and(is_(failed, 1), is_(unclear, 0)))
    run = p_and(B, p_and(is_(failed, 0), is_(unclear, 0)))
    none, item_names = st.when("none"), ("blob_header",) if header else ("blob",)
    items, errs = st.when(*item_names), st.when(*ERRORS)
    if "end" in want:
        if dead is not FALSE:
            C.implies("after an error iteration is at its end", st.e, dead, none, "something else than the end is returned")
        for x in st.io("read") + st.io("parse") + st.io("seek"):
            C.implies("after an error nothing is read", x, p_and(x.pred, dead), FALSE, "the source is still used")
    if run is FALSE:
        return
    ok = rec.header_ok if header else rec.good
    fails = FALSE
    if header:
        # skipping the content
        bad = lift(lambda a, b: test(atom(term("seekerr", a, b, lo=0, hi=1)), 1, 1), h, rec.next)
        fails = p_and(rec.header_ok, bad)
        ok = p_and(rec.header_ok, p_not(bad))
    if "framing" in want:
        C.implies("an intact record is returned", st.e, p_and(run, p_and(ok, present_size(R, rec))), items, "an intact record is not returned")
        C.implies("only intact records are returned", st.e, p_and(run, items), ok, "a record is returned although it is not intact")
    if "eof" in want:
        C.implies("the end is reported only if the source is exhausted at a record boundary", st.e, p_and(run, none), rec.none, "a failure is taken for the end")
        C.implies("the end of the source is the end of iteration", st.e, p_and(run, rec.none), none, "the end is not reported as such")
        C.implies("a failure is reported as an error", st.e, p_and(run, p_and(p_not(ok), p_not(rec.none))), errs, "no error is reported")
    if "limits" in want:
        C.implies("a header of 64 KiB or more is rejected as too big", st.e, p_and(run, rec.too_big), st.when("header_too_big"), "it is not")
        for x in st.io("parse"):
            if x.args[3] == rec.hty:
                C.implies("the header is read only if it is smaller than 64 KiB", x, p_and(x.pred, run), is_(rec.H, -INF, LIMIT - 1), "header bytes are consumed before the check")
    errors(R, C, st, rec, run, want, header, fails)
    for x in st.each("blob_offset", "header_offset"):
        p = p_and(run, x.pred)
        if "offset" in want and p is not FALSE:
            same_offset(C, "offset", x, is_(known, 1), P, run)
    if "framing" in want:
        for x in st.each("header_size"):
            C.equal("the reported size is the announced one", x, x.args[0], rec.D, p_and(p_and(run, x.pred), present_size(R, rec)))
        for x in st.each(*item_names):
            p = p_and(run, x.pred)
            holds_message(C, "the header is parsed from the announced bytes", x, x.args[0], rec.hty, rec.header, p)
            if not header:
                holds_message(C, "the content is parsed from the announced bytes", x, x.args[0], rec.bty, rec.blob, p)
    for e in R.f.outs.get(st.cp, []):
        g = p_and(p_and(e.pred, run), ok)
        if g is FALSE:
            continue
        s2 = src_of(e.store)
        if s2 is None:
            continue
        pos = resolve(R, st.cp, con_val(s2.kids[1], g))
        if "framing" in want:
            C.equal("the reader moves by exactly the record", st.e, pos, rec.next, g)
            C.equal("the source stays the same", st.e, s2.kids[0], h, g)
        if "progress" in want:
            C.implies("every item moves the position forward", st.e, g, forward(rec, pos, P), "the position may stay where it was")


def forward(rec, pos, P):
    """The position pos is beyond P: directly, or as the sum of P, 4 and two sizes that are not negative"""
    return p_or(lift(lambda a, b: le(padd(b, ONE), a), pos, P),
                p_and(lift(lambda a, b: eq(a, b), pos, rec.next), is_(rec.D, 0, INF)))


def at(R, C, st, h, P, want):
    B = st.B
    p0 = st.e.args[0]
    rec = Record(R, h, p0)
    bad = lift(lambda a, b: test(atom(term("seekerr", a, b, lo=0, hi=1)), 1, 1), h, p0)
    run = p_and(B, p_not(bad))
    items, errs = st.when("blob"), st.when(*ERRORS)
    if "at" in want:
        C.implies("the record at the offset is returned if it is intact", st.e, p_and(run, p_and(rec.good, present_size(R, rec))), items, "an intact record is not returned")
        C.implies("only an intact record at the offset is returned", st.e, p_and(B, items), p_and(rec.good, p_not(bad)), "a record is returned although there is none")
        for x in st.each("blob_offset"):
            same_offset(C, "offset", x, TRUE, p0, run)
        for x in st.each("blob"):
            p = p_and(run, x.pred)
            holds_message(C, "the header is the one at the offset", x, x.args[0], rec.hty, rec.header, p)
            holds_message(C, "the content is the one at the offset", x, x.args[0], rec.bty, rec.blob, p)
    if "eof" in want or "at" in want:
        C.implies("everything else is an error", st.e, p_and(B, p_or(bad, p_not(rec.good))), errs, "no error is reported")
    if "limits" in want:
        C.implies("a header of 64 KiB or more is rejected as too big", st.e, p_and(run, rec.too_big), st.when("header_too_big"), "it is not")
    errors(R, C, st, rec, p_and(B, p_not(bad)), want, False, none_is_error=True)
    for e in R.f.outs.get(st.cp, []):
        g = p_and(p_and(e.pred, run), rec.good)
        s2 = src_of(e.store)
        if g is FALSE or s2 is None:
            continue
        if "at" in want:
            C.equal("reading continues behind the record", st.e, resolve(R, st.cp, con_val(s2.kids[1], g)), rec.next, g)


def seeking(R, C, st, h, P, want):
    an = R.an
    B = st.B
    v = st.e.args[0]
    if st.e.name == "seek":
        tgt = v
        okn = "ok"
    else:
        ty = st.e.extra
        w = an.expand(con_val(v, B), ty)
        vs = {x["name"]: i for i, x in enumerate(an.ty[ty]["variants"])}
        tgt = None
        for nm, f in (("Start", lambda x: x), ("Current", lambda x: an.iadd(P, x)), ("End", lambda x: lift(lambda a, y: padd(atom(term("srclen", a, lo=0, hi=U64)), y), h, x))):
            pl = w.payload(vs[nm])
            if pl is None:
                continue
            tgt = f(pl[0]) if tgt is None else ite(is_(w.d, vs[nm]), f(pl[0]), tgt)
        okn = "position"
    bad = lift(lambda a, b: test(atom(term("seekerr", a, b, lo=0, hi=1)), 1, 1), h, tgt)
    if "seek" in want:
        C.implies("a seek that works is reported as success", st.e, p_and(B, p_not(bad)), st.when(okn), "it is not")
        C.implies("a seek that fails is reported as an error", st.e, p_and(B, bad), st.when(*ERRORS), "the failure is ignored")
        for x in st.each("position"):
            C.equal("the reported position is the new one", x, x.args[0], tgt, p_and(B, x.pred))
        for e in R.f.outs.get(st.cp, []):
            g = p_and(p_and(e.pred, B), p_not(bad))
            s2 = src_of(e.store)
            if g is FALSE or s2 is None:
                continue
            C.equal("reading continues at the position", st.e, resolve(R, st.cp, con_val(s2.kids[1], g)), tgt, g)


def io_events(R, name):
    return [e for e in R.f.events if e.kind == "io" and e.name == name]


def failing(R, e):
    """Predicate: the step of this event fails"""
    op = {"open": "openerr", "position": "poserr", "map": "maperr"}[e.name]
    return p_and(e.pred, lift(lambda *a: test(atom(term(op, *a, lo=0, hi=1)), 1, 1), *e.args))


def failure(R, e):
    op = {"open": "openfail", "position": "posfail", "map": "mapfail"}[e.name]
    return lift(lambda *a: term(op, *a), *e.args)


def opening(R, C, made, want, opens):
    """Creating a reader or a map: every failing step is reported, and nothing else is an error"""
    evs = [e for n in ("open", "position", "map") for e in io_events(R, n) if e.cp == 0]
    F = [e for e in R.f.events if e.cp == 0]
    bad = FALSE
    for e in evs:
        bad = p_or(bad, failing(R, e))
    errs = FALSE
    for e in F:
        if e.kind == "obs" and e.name in ERRORS:
            errs = p_or(errs, e.pred)
    at = F[0]
    ok = FALSE
    for e in F:
        if e.kind == "obs" and e.name == made:
            ok = p_or(ok, e.pred)
    if opens and not io_events(R, "open"):
        C.report(Ob(f"{C.what}: the path is opened", where(at), undecided="no opening of a file is found"))
    if "created" in want:
        C.implies("a failure to open is reported", at, bad, errs, "no error is reported")
        C.implies("nothing is created after a failure", at, ok, p_not(bad), "the failure is ignored")
        C.implies("without a failure there is no error", at, p_not(bad), ok, "an error is reported although every step worked")
        for x in F:
            if x.kind == "obs" and x.name in ERRORS:
                C.implies("a failure to open is an I/O error", x, x.pred, TRUE if x.name == "io" else FALSE, f"reported as '{x.name}'")
            if x.kind == "obs" and x.name == "io_error":
                for e in evs:
                    p = p_and(x.pred, failing(R, e))
                    v = R.an.expand(con_val(x.args[0], p), x.extra)
                    if isinstance(v, Agg) and v.tag == "ioerror":
                        C.equal("the error is the one of the failed step", x, io_payload(v, p), failure(R, e), p)
                    elif p is not FALSE:
                        C.equal("the error is the one of the failed step", x, v, failure(R, e), p)
    if "path" in want:
        arg = R.an.entry_cp.store[R.an.lroot(R.an.g.root, 1)]
        for e in io_events(R, "open"):
            C.equal("the given path is opened", e, e.args[0], arg, e.pred)


def files(ctx, report, want):
    for root in ("i_file", "i_seekable_file"):
        def f(R, root=root):
            C = Checker(R, report, root)
            opening(R, C, "created", want, True)
            F = R.f
            arg = R.an.entry_cp.store[R.an.lroot(R.an.g.root, 1)]
            hh = lift(lambda x: term("file", x), arg)
            for e in F.outs.get(0, []):
                src = src_of(e.store)
                if src is None:
                    report(Ob(f"{root}: the source is part of the reader", R.name, undecided="the source is not found in the reader"))
                    return
                if "path" in want or "framing" in want:
                    C.equal("the file that is read is that of the path", F.events[0], con_val(src.kids[0], e.pred), hh, e.pred)
                    C.equal("reading starts at the beginning", F.events[0], con_val(src.kids[1], e.pred), ZERO, e.pred)
            for e in R.obs("next"):
                src = src_of(F.cps[e.cp].store)
                if src is None:
                    continue
                h, P = src.kids
                item(R, Checker(R, report, f"next [{root}]"), Step(R, e), h, resolve(R, e.cp, P), want, False)
        with_root(ctx, report, root, f, "io")


def maps(ctx, report, want):
    for root in ("i_map_path", "i_map_file"):
        def f(R, root=root):
            C = Checker(R, report, root)
            opening(R, C, "map", want, root == "i_map_path")
            if "path" in want and root == "i_map_path":
                arg = R.an.entry_cp.store[R.an.lroot(R.an.g.root, 1)]
                for e in io_events(R, "map"):
                    C.equal("the map is that of the opened file", e, e.args[0], lift(lambda x: term("file", x), arg), e.pred)
        with_root(ctx, report, root, f, "io")


@rule("C11", "typestate of the reader under every history of commands (most general client); canonical equality of guards, contents, offsets and positions with the record that the format describes at the source's position")
def c11(ctx, report):
    want = {"framing", "offset", "seek", "created", "eof"}
    stream(ctx, report, want)
    files(ctx, report, want)
