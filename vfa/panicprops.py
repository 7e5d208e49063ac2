"""C20: no content of a stream, mapped file or block makes an operation panic."""
from .dd import *
from .values import *
from . import models
from .props import rule, undecided
from .rules import Ob, where, short

GROUPS = ("walk", "io", "err", "read", "par", "idx")
PARTIAL = (models._panic, models._slice_index, models._arr_index, models._split_at)
# ends of the process that do not depend on the content: memory that cannot be allocated
NOT_PANIC = ("alloc::alloc::handle_alloc_error",)


def sites(an):
    """Places that could panic: [(node, name)], as far as the library or std (inlined) contains them"""
    out = []
    for n in an.g.nodes:
        if n is None or not n.term:
            continue
        t = n.term
        if t["k"] == "assert":
            k = t["msg"][0]
            if not k.startswith("overflow") and not (k == "other" and "PointerDereference" in t["msg"][1]):
                out.append((n, k))
        elif t["k"] == "call" and isinstance(t.get("f"), dict):
            m = an.models.fallback(t["f"])
            if m in PARTIAL:
                out.append((n, t["f"].get("path", "?")))
    return out


def frame_where(n):
    ch = n.frame.chain() if n.frame is not None else []
    return ch[0].split("::")[-1] if ch else ""


def never(R, e):
    """A call that does not return"""
    d = R.an.g.nodes[e.node].term.get("dty")
    return d is not None and R.an.ty[d]["k"] == "never"


def panics(R, report):
    bad = {}
    for e in R.f.events:
        p = e.pred
        if e.kind == "panic" and e.name != "overflow":
            pass
        elif e.kind == "panicif":
            p = p_and(p, e.args[0])
        elif e.kind == "call" and never(R, e) and e.name not in NOT_PANIC:
            pass
        else:
            continue
        if p is not FALSE:
            bad.setdefault((e.name, where(e)), []).append((e, p))
    for (name, wh), es in sorted(bad.items()):
        nm = f"no input makes '{name.split('::')[-1]}' panic"
        clear = [p for e, p in es if not R.tainted(p)]
        if clear:
            report(Ob(nm, wh, detail=f"reachable from {R.name} if {short(clear[0], 400)}"))
        else:
            report(Ob(nm, wh, undecided=f"depends on calls outside of the analysis ({R.unknown_names()})"))
    return bad


@rule("C20", "every assertion, index, slice, unwrap, division and explicit panic in the inlined call tree of every client is unreachable: the canonical path condition of each such site is FALSE")
def c20(ctx, report):
    for group in GROUPS:
        for name in sorted(ctx.program(group).roots):
            R = ctx.root(name, group)
            if R.error:
                undecided(report, R, name)
                continue
            bad = {n for n, _ in panics(R, report)}
            found = {}
            for nd, kind in sites(R.an):
                k = kind.split("::")[-1]
                if k not in bad:
                    found.setdefault((frame_where(nd), k), []).append(nd)
            for (fn, kind), nds in sorted(found.items()):
                report(Ob(f"{len(nds)} site(s) of '{kind}' in {fn} cannot panic", name))
            ctx.notes += ctx.lines(group, name)
            ctx.roots.pop((group, name))
