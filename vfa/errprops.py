"""C28: the error type. Kinds, data, cause, conversions and messages."""
import re
from .dd import *
from .values import *
from .decprops import blob_rules
from .facts import same_val
from .fmtmodels import pieces
from .iomodels import io_payload
from .ioprops import Checker, io_events, stream
from .props import rule, with_root
from .rules import Ob, short, where

# kind -> words that its message has to contain (any of each group), and words that it must not
WORDS = {
    "Io": ([], []),
    "Protobuf": ([r"protobuf|proto|parse|decod"], []),
    "StringtableUtf8": ([r"utf"], [r"bounds"]),
    "StringtableIndexOutOfBounds": ([r"bound|range|index"], [r"utf"]),
    "Blob.InvalidHeaderSize": ([r"header", r"size|length"], [r"too (big|large|long)", r"message"]),
    "Blob.HeaderTooBig": ([r"header", r"big|large|long|exceed|limit|size"], [r"message"]),
    "Blob.MessageTooBig": ([r"message|content|data|blob", r"big|large|long|exceed|limit|size"], [r"header"]),
    "Blob.Empty": ([r"missing|empty|no |without|neither|lack"], [r"too (big|large|long)"]),
}
WRAPS = {"Io": 0, "Protobuf": "err", "StringtableUtf8": "err"}
OBS = {"Io": "io", "Protobuf": "protobuf", "StringtableUtf8": "utf8", "StringtableIndexOutOfBounds": "bounds",
       "Blob.InvalidHeaderSize": "header_size", "Blob.HeaderTooBig": "header_big", "Blob.MessageTooBig": "message_big", "Blob.Empty": "empty"}


class Kinds:
    """The kinds of one error: predicate and data of each."""

    def __init__(self, R, ref, ty):
        an = self.an = R.an
        lv = self.place(ref, ty)
        self.ty = an.ty.pointee(ty)
        self.lv = lv
        self.kinds = {}
        v = an.expand(an.read_lv(self.state(), lv, self.ty), self.ty)
        self.walk("", v, self.ty, TRUE, lv)

    def state(self):
        from .engine import State
        return State(TRUE, {})

    def place(self, ref, ty):
        return self.an.targets(ref, self.an.ty.pointee(ty))

    def walk(self, prefix, v, ty, p, lv):
        an = self.an
        for i, var in enumerate(an.ty[ty]["variants"]):
            name = prefix + var["name"]
            q = p_and(p, map1(lambda x: FALSE if x is UNDEF else eq(x, num(i)), v.d))
            data = {}
            for j, (fn, ft) in enumerate(an.ty.fields(ty, i)):
                data[fn if not fn.isdigit() else j] = (v.payload(i)[j], ft, j, i)
            k = data.get(0)
            if k is not None and an.ty[k[1]]["k"] == "adt" and an.ty[k[1]].get("path", "").endswith("BlobError"):
                self.walk(name + ".", an.expand(k[0], k[1]), k[1], q, None)
            else:
                self.kinds[name] = (q, data)


def kinds_of(R, report, root):
    es = R.obs("kind")
    if not es:
        report(Ob(f"{root}: the kind is reported", R.name, undecided="kind() is not called"))
        return None
    return Kinds(R, con_val(es[0].args[0], es[0].pred), es[0].extra)


def kind_obligations(R, report):
    C = Checker(R, report, "kind")
    an = R.an
    for name, o in OBS.items():
        a, b = R.obs("k_" + o), R.obs("i_" + o)
        if not a or not b:
            report(Ob(f"kind() and into_kind() report {name}", R.name, undecided="not found"))
            continue
        pa, pb = FALSE, FALSE
        for e in a:
            pa = p_or(pa, e.pred)
        for e in b:
            pb = p_or(pb, e.pred)
        C.implies(f"into_kind() is {name} whenever kind() is", b[0], pa, pb, "the kinds differ")
        C.implies(f"kind() is {name} whenever into_kind() is", a[0], pb, pa, "the kinds differ")
        for x in a:
            for y in b:
                p = p_and(x.pred, y.pred)
                if p is FALSE:
                    continue
                C.equal(f"kind() and into_kind() report the same data of {name}", y, data_of(an, y, p), data_of(an, x, p), p)
    # an error's kind is that of the value it holds: read directly
    ty = an.body["locals"][1]
    v = an.entry_cp.store[an.lroot(an.g.root, 1)]


def data_of(an, e, p):
    """Observed data with references to the wrapped errors read"""
    v, ty = con_val(e.args[0], p), e.extra
    if an.ty[ty]["k"] == "tuple":
        out = []
        for i, (_, ft) in enumerate(an.ty.fields(ty)):
            out.append(deref(an, an.get_field(v, ty, None, i), ft))
        return agg("tuple", tuple(out))
    return deref(an, v, ty)


def deref(an, v, ty):
    from .engine import State
    to = an.ty.pointee(ty) if an.ty[ty]["k"] == "ref" else None
    if to is None or an.ty[to]["k"] in ("str", "slice", "dyn"):
        return v
    return an.read_lv(State(TRUE, {}), an.targets(v, to), to)


def cause(R, report):
    C = Checker(R, report, "cause")
    K = kinds_of(R, report, "cause")
    if K is None:
        return
    an = R.an
    for name, (q, data) in K.kinds.items():
        if name in WRAPS:
            val, ft, j, i = data[WRAPS[name]]
            some = FALSE
            for e in R.obs("cause"):
                p = p_and(e.pred, q)
                some = p_or(some, p)
                if p is FALSE:
                    continue
                # the reference that is handed out refers to the wrapped error itself
                try:
                    lv = an.targets(con_val(e.args[0], p), None, p)
                    ok = all(same_val(an, con_val(an.read_lv(K.state(), [(TRUE, pl)], ft), p), con_val(val, p), p_and(p, g))
                             for g, pl in lv if p_and(p, g) is not FALSE)
                except Exception as x:
                    report(Ob(f"cause: the cause of {name} is the wrapped error", where(e), undecided=f"{x}"))
                    continue
                report(Ob(f"cause: the cause of {name} is the wrapped error", where(e), None if ok else
                          f"it is {short(con_val(e.args[0], p))}"))
            at = R.f.events[0]
            C.implies(f"{name} has a cause", at, q, some, "no cause is given")
        else:
            at = R.f.events[0]
            none = FALSE
            for e in R.obs("no_cause"):
                none = p_or(none, e.pred)
            C.implies(f"{name} has no cause", at, q, none, "a cause is given for an error that wraps none")


def display(R, report):
    C = Checker(R, report, "message")
    K = kinds_of(R, report, "message")
    if K is None:
        return
    an = R.an
    evs = [e for e in R.f.events if e.kind == "fmt"]
    at = R.f.events[0]
    for name, (q, data) in K.kinds.items():
        if name not in WORDS:
            continue
        mine = [(e, p_and(e.pred, q)) for e in evs]
        mine = [(e, p) for e, p in mine if p is not FALSE]
        text, values, unclear = "", [], None
        written = FALSE
        for e, p in mine:
            v = con_val(e.args[0], p)
            ps = pieces(v)
            written = p_or(written, p)
            if ps is None:
                unclear = short(v, 120)
                continue
            for k, x in ps:
                if k == "text":
                    text += x
                    if p is not q and p_and(q, p_not(p)) is not FALSE:
                        unclear = unclear or "the message depends on more than the kind"
                else:
                    values.append((e, p, x))
                    if isinstance(x, T) and x.op == "str":
                        text += x.args[0]
        if not mine and R.unknown_names():
            report(Ob(f"message of {name}", where(at), undecided="nothing that is written is found"))
            continue
        C.implies(f"the message of {name} is written", at, q, written, "nothing is written")
        if unclear and not text and not values:
            report(Ob(f"message of {name}", where(mine[0][0]), undecided=f"not understood: {unclear}"))
            continue
        e0 = mine[0][0] if mine else at
        for fn, (val, ft, j, i) in data.items():
            # the datum is one of the values that are written
            cover = FALSE
            for e, p, x in values:
                if same_val(an, x, con_val(val, p), p) or same_val(an, x, val, p) or same_ref(an, x, val, ft, p):
                    cover = p_or(cover, p)
            nm = f"message: the message of {name} contains its {'wrapped error' if name in WRAPS and WRAPS[name] == fn else fn}"
            bad = p_and(q, p_not(cover))
            if bad is FALSE:
                report(Ob(nm, where(e0)))
            elif unclear or R.tainted(*[x for _, _, x in values]) or R.unknown_names():
                report(Ob(nm, where(e0), undecided=f"the written values are not understood ({unclear or R.unknown_names()})"))
            else:
                report(Ob(nm, where(e0), f"the values in the message are {short([x for _, _, x in values], 160)}"))
        low = text.lower()
        need, avoid = WORDS[name]
        lack = [w for w in need if not re.search(w, low)]
        has = [w for w in avoid if re.search(w, low)]
        nm = f"message: the message belongs to {name}"
        if (lack or has) and unclear:
            report(Ob(nm, where(e0), undecided=f"not understood: {unclear}"))
        else:
            report(Ob(nm, where(e0), f"the message is '{text}'" if lack or has else None))


def same_ref(an, x, val, ty, p):
    try:
        if isinstance(x, (Agg, En)) or x is UNDEF:
            return False
        lv = an.targets(x, ty, p)
        from .engine import State
        return same_val(an, an.read_lv(State(TRUE, {}), lv, ty), val, p)
    except Exception:
        return False


def to_io(R, report):
    C = Checker(R, report, "conversion to an I/O error")
    K = kinds_of(R, report, "to_io")
    if K is None:
        return
    an = R.an
    err = an.entry_cp.store[an.lroot(an.g.root, 1)]
    for name, (q, data) in K.kinds.items():
        for e in R.obs("to_io"):
            p = p_and(e.pred, q)
            if p is FALSE:
                continue
            v = con_val(e.args[0], p)
            inner = data[0][0] if name == "Io" else None
            if inner is not None and same_val(an, v, con_val(inner, p), p):
                report(Ob(f"conversion to an I/O error: {name} keeps the error", where(e)))
                continue
            x = an.expand(v, e.extra)
            if isinstance(x, Agg) and x.tag == "ioerror":
                pl = io_payload(x, p)
                if same_val(an, pl, con_val(err, p), p) or same_error(an, e, pl, K, p):
                    report(Ob(f"conversion to an I/O error: {name} keeps the error", where(e)))
                    continue
            if R.tainted(v, p):
                report(Ob(f"conversion to an I/O error: {name} keeps the error", where(e), undecided=f"not understood ({R.unknown_names()})"))
            else:
                report(Ob(f"conversion to an I/O error: {name} keeps the error", where(e), f"it becomes {short(v, 160)}"))


def same_error(an, e, v, K, p):
    """v is an error made anew: its kind, and with it all data, is that of the converted error"""
    from .engine import State
    if not isinstance(v, Agg) or not v.tag.startswith("osmpbf") or len(v.kids) != 1:
        return False
    try:
        st = State(p, e.store)
        new = an.read_lv(st, an.targets(v.kids[0], K.ty, p), K.ty)
        old = an.read_lv(State(TRUE, {}), K.lv, K.ty)
        return same_val(an, con_val(an.expand(new, K.ty), p), con_val(an.expand(old, K.ty), p), p)
    except Exception:
        return False


def from_io(R, report):
    C = Checker(R, report, "conversion from an I/O error")
    an = R.an
    x = an.entry_cp.store[an.lroot(an.g.root, 1)]
    ok = FALSE
    for e in R.obs("from_io"):
        ok = p_or(ok, e.pred)
        C.equal("the I/O error is kept", e, con_val(e.args[0], e.pred), x, e.pred)
    C.implies("it becomes the I/O kind", R.f.events[0], TRUE, ok, "another kind is reported")


@rule("C28", "gated values of the kind, the data, the cause, the conversions and the written message for every kind of error; the reading and decoding rules give the kind and data of every constructed error")
def c28(ctx, report):
    for root, f in (("e_kinds", kind_obligations), ("e_cause", cause), ("e_display", display), ("e_to_io", to_io), ("e_from_io", from_io)):
        with_root(ctx, report, root, lambda R, f=f: f(R, report), "err")
    stream(ctx, report, {"errors", "limits"})
    blob_rules(ctx, report, {"decode", "limits"})
