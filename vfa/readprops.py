"""Rules about reading whole files: element readers and indexed readers."""
import copy
from .decprops import *
from .props import idents, list_end, present
from .rules import Coverage, LISTS

KINDS = (("node", "Node"), ("dense", "dense"), ("way", "Way"), ("rel", "Relation"))


class File:
    """The records of the source that is read, and the blocks in them."""

    def __init__(self, R):
        self.R, self.an = R, R.an
        an, F = R.an, R.f
        self.h = self.start = None
        a = an.entry_cp.store[an.lroot(an.g.root, 1)]
        s = find_src(an.expand(a, an.body["locals"][1]))
        if s is None:
            raise SpecError("no source")
        self.h, self.start = s.kids
        self.recs, self.pays, self.blocks = {}, {}, {}
        self.heads = {0: self.start}
        for c in F.cps:
            # locals that were moved keep their old content
            for s in filter(None, map(find_src, F.cps[c].store.values())):
                P = resolve(R, c, s.kids[1]) if s.kids[0] is self.h else None
                if isinstance(P, Poly) and c in P.syms:
                    self.heads[c] = P
        for P in self.heads.values():
            for l, g in leaves(self.data(P).msg):
                if l is not UNDEF:
                    self.blocks[l] = P, g

    def rec(self, P):
        r = self.recs.get(P.id)
        if r is None:
            r = self.recs[P.id] = Record(self.R, self.h, P)
            r.type = Typed(self.R, r.header)
        return r

    def pay(self, P, name):
        k = P.id, name
        if k not in self.pays:
            self.pays[k] = Payload(self.R, self.rec(P).blob, BLOCKS[name])
        return self.pays[k]

    def data(self, P):
        return self.pay(P, "data")

    def is_data(self, P):
        """The record at P is intact and holds a block of elements that can be decoded"""
        r = self.rec(P)
        return p_and(r.good, p_and(r.type.data, self.data(P).ok))

    def undecodable(self, P):
        """The record is intact, but its content can not be decoded"""
        r = self.rec(P)
        return p_and(r.good, p_or(p_and(r.type.data, p_not(self.data(P).ok)), p_and(r.type.header, p_not(self.pay(P, "header").ok))))

    def over(self, P, f):
        """f(block), a diagram, for the block of the record at P"""
        r = None
        for l, g in leaves(self.data(P).msg):
            if l is UNDEF:
                continue
            x = f(l)
            r = x if r is None else ite(g, x, r)
        return r

    def idents(self, e, kind, report, name):
        """[(guard, (P, gi, pj))]"""
        out = []
        rest = e.pred
        for b, (P, own) in self.blocks.items():
            if not any(t is b for t in terms_in(e.args[0])):
                continue
            x = copy.copy(e)
            x.pred = p_and(e.pred, own)
            for g, i in idents(self.R, b, x, kind, lambda o: None, name):
                out.append((g, (P,) + i))
                rest = p_and(rest, p_not(g))
        if rest is not FALSE:
            missing(self.R, report, name, e, e.args[0], rest, f"the reported value {short(e.args[0])} is not the id of a stored element of this kind")
        return out


class FileCoverage(Coverage):
    """Elements of a file by (record, group, position)"""

    def __init__(self, R, file, kind, events, what, stop):
        """stop(P): the reading ends at record P"""
        self.file = file

        def groups(t):
            n = file.over(t[0], lambda b: R.s.rlen(b, 2))
            return p_or(p_not(file.is_data(t[0])), R.an.ile(n, t[1]))

        def elements(t):
            return file.over(t[0], lambda b: list_end(R, b, kind)(t[1:]))
        super().__init__(R, [lambda t: stop(t[0]), groups, elements], events, what)
        self.start = (file.start, ZERO, ZERO)

    def follow(self, k, x, y, g, depth):
        return super().follow(k, x, y, g, depth + 3 * (k == 1))

    def beyond(self, k, tup, g):
        if k == 1:
            return [(g2, (n, ZERO, ZERO)) for n, g2 in leaves(con_val(self.file.rec(tup[0]).next, g), g) if n is not UNDEF]
        return super().beyond(k, tup, g)


def covered(R, file, what, report, stop, kinds=KINDS):
    for nm, kind in kinds:
        w = f"{what}: {kind}"
        evs = []
        for e in R.obs(nm):
            ids = file.idents(e, kind, report, f"{w}: the id is the element's")
            evs.append((e, ids))
        FileCoverage(R, file, kind, evs, w, stop).run(report)


def outcome(R, F, report, what):
    """Success only at the end of the source; an error is that of the record at which the reading ends"""
    at = R.f.events[0]
    C0 = Checker(R, report, what)
    for cp in sorted(R.f.cps):
        ends = [e for e in R.f.events if e.cp == cp and e.kind == "obs" and e.name in ("ok",) + ERRORS]
        if not ends:
            continue
        if cp not in F.heads:
            for e in ends:
                C0.implies(f"'{e.name}' is not reported while a block is read", e, e.pred, FALSE, "the reading ends within a block")
            continue
        P = F.heads[cp]
        rec = F.rec(P)
        sc = Scene(R, cp)
        C = Checker(R, report, what)
        ok, errs = sc.when("ok"), sc.when(*ERRORS)
        for e in sc.each("ok"):
            C.implies("success only if the source has ended without an error", e, e.pred, rec.none, "success is reported after a failure")
        for e in sc.each(*ERRORS):
            C.implies("no error at the end of the source", e, e.pred, p_not(rec.none), f"'{e.name}' is reported")
        st = Step(R, ends[0])
        st.B = p_not(p_or(rec.good, rec.none))
        errors(R, C, st, rec, st.B, {"errors", "limits"}, False)
        decode_errors(R, C, sc, F, P)
        # every failure ends the reading with an error
        ins = p_or(ok, errs)
        C.implies("the first error is returned", ends[0], p_and(ins, p_not(rec.none)), errs, "no error is reported")


def decode_errors(R, C, sc, F, P):
    rec = F.rec(P)
    hp, dp = F.pay(P, "header"), F.pay(P, "data")
    bad, both = FALSE, lambda f: p_or(p_and(rec.type.header, f(hp)), p_and(rec.type.data, f(dp)))
    for e in sc.each(*ERRORS):
        p = p_and(e.pred, rec.good)
        C.implies(f"the error '{e.name}' of an intact record has a cause", e, p, F.undecodable(P), "an error is reported although nothing failed")
        if e.name == "message_too_big":
            C.implies("'too big' means that", e, p, both(lambda x: p_or(x.raw_big, x.z_full)), "reported for content that is not too big")
        elif e.name == "empty":
            C.implies("'empty' means that", e, p, both(lambda x: x.empty), "reported for a blob with content")
        elif e.name == "protobuf":
            C.implies("a protobuf error means that parsing failed", e, p, both(lambda x: x.bad), "reported although nothing failed to parse")
        else:
            C.implies("no other error", e, p, FALSE, f"error '{e.name}'")
    for e in sc.each("protobuf_error"):
        for t, x in ((rec.type.header, hp), (rec.type.data, dp)):
            C.equal("the error is the one of parsing the payload", e, e.args[0], x.err, p_and(p_and(e.pred, rec.good), p_and(t, x.bad)))


@rule("C09", "the reported elements advance a lexicographic (record, group, position) counter by exactly one element at a time until the first record that ends or fails; outcome by gated values at every exit")
def c09(ctx, report):
    def f(R):
        F = File(R)
        covered(R, F, "C09", report, lambda P: p_or(p_not(F.rec(P).good), F.undecodable(P)))
        outcome(R, F, report, "C09 outcome")
    with_root(ctx, report, "r_for_each", f, "read")


# ------------------------------------------------------------------ parallel reduction
def enclosing(R, F, cp):
    """The position of the record that is being processed at a cut point; None if there is not exactly one"""
    if cp in F.heads:
        return F.heads[cp]
    ids = {x for v in support(R.f.cps[cp].pred) for x in v.syms}
    ps = {P.id: P for c, P in F.heads.items() if c in ids}
    return next(iter(ps.values())) if len(ps) == 1 else None


def parallel_items(R, F, C):
    """Every record contributes one item: an error if reading or decoding fails, else the sum of its elements"""
    for e in R.obs("item", "item_failed"):
        P = enclosing(R, F, e.cp)
        if P is None:
            C.report(Ob(f"{C.what}: the record of an item is determined", where(e), undecided="the position in the source is not known"))
            continue
        rec = F.rec(P)
        if e.name == "item":
            C.implies("a record that can not be read or decoded contributes an error", e, e.pred, p_and(rec.good, p_not(F.undecodable(P))), "it contributes a result")
            a = e.args[0].kids
            C.equal("a record contributes the reduction of its mapped elements", e, a[0], a[1], e.pred)
        else:
            C.implies("only failures contribute errors", e, e.pred, p_not(p_or(rec.none, p_and(rec.good, p_not(F.undecodable(P))))), "a record that can be decoded contributes an error")
    for cp, P in F.heads.items():
        evs = [e for e in R.f.events if e.cp == cp and e.kind == "io" and e.name == "read"]
        if not evs:
            continue
        rec = F.rec(P)
        bad = p_and(R.f.cps[cp].pred, p_or(p_not(p_or(rec.good, rec.none)), F.undecodable(P)))
        C.implies("every failure contributes an error", evs[0], bad, Scene(R, cp).when("item_failed"), "it is dropped")


def reduction(R, C):
    for cp in sorted(R.f.cps):
        sc = Scene(R, cp)
        for o in sc.each("operands"):
            p, x, q, y = o.args[0].kids
            both = p_and(is_(p, 1), is_(q, 1))
            for e in sc.each("combined"):
                C.implies("an error absorbs the other result", e, e.pred, both, "a result is made of an error")
                C.equal("two results are reduced", e, e.args[0], R.an.iadd(x, y), e.pred)
            for e in sc.each("combined_failed"):
                C.implies("two results give a result", e, e.pred, p_not(both), "an error is made of two results")
            C.implies("every combination has an outcome", o, o.pred, p_or(sc.when("combined"), sc.when("combined_failed")), "there is none")
        for e in sc.each("identity"):
            C.equal("the reduction starts with the identity", e, e.args[0], ZERO, e.pred)
        for e in sc.each("identity_failed"):
            C.implies("the reduction starts with the identity", e, e.pred, FALSE, "it starts with an error")
        for r in sc.each("result"):
            C.implies("a result is returned as such", r, r.pred, sc.when("ok"), "it is dropped")
            for e in sc.each("ok"):
                C.equal("the result is the one of the reduction", e, e.args[0], r.args[0], e.pred)
        for e in sc.each("ok"):
            C.implies("success only with the result of the reduction", e, e.pred, sc.when("result"), "there is no such result")
        for r in sc.each("result_failed"):
            C.implies("an error is returned as such", r, r.pred, sc.when(*ERRORS), "it is hidden")


@rule("C10", "rayon's reduction is replaced by an arbitrary one: per item, coverage of the record's elements by a (record, group, position) counter and equality of the result with a ghost sum; the combining function on arbitrary operands")
def c10(ctx, report):
    def f(R):
        if not R.obs("operands"):
            report(Ob("C10: the parallel pipeline", R.name, undecided="it does not end in rayon's reduce or try_reduce over results"))
            return
        F = File(R)
        covered(R, F, "C10", report, lambda P: p_not(F.rec(P).good))
        C = Checker(R, report, "C10 items")
        parallel_items(R, F, C)
        reduction(R, Checker(R, report, "C10 reduction"))
    with_root(ctx, report, "p_map_reduce", f, "par")
