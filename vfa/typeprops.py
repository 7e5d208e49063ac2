"""Rules decided by the type checker: witness programs that must be rejected, each with a twin that must be accepted."""
import itertools
import os
import re
import tomllib
from . import build
from .auditprops import generated, place
from .lib import Lib, text
from .props import rule
from .rules import Ob

LIFETIME = {"E0597", "E0505", "E0506", "E0515", "E0716", "E0499", "E0502", "E0521", "E0373", "E0310", "E0309", "E0700", None}
HEAD = """#![allow(unused)]
use osmpbf::*;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::io::{Read, Seek};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicU64, Ordering};
fn take<T>(_: T) {}
fn send<T: Send>() {}
fn sync<T: Sync>() {}
"""


def codes(ds):
    return [(d.get("code") or {}).get("code") for d in ds]


def first(ds):
    return (ds[0]["message"] if ds else "?")[:200]


class Witness:
    def __init__(self, lib, report):
        self.lib, self.report = lib, report
        self.n = 0

    def rejected(self, name, bad, good, allowed):
        """`bad` must be rejected for one of the allowed reasons; `good` shows that the rest of it is accepted"""
        self.n += 1
        ok, ds = self.lib.witness(HEAD + bad)
        where = "witness: " + re.sub(r"\s+", " ", bad).strip()[:260]
        ok2, ds2 = self.lib.witness(HEAD + good)
        if ok:
            # a program that the type checker accepts although it must not
            self.report(Ob(name, where, "the program is accepted"))
        elif not ok2:
            self.report(Ob(name, where, undecided=f"the accepted twin does not compile either: {first(ds2)}"))
        elif not all(c in allowed for c in codes(ds)):
            self.report(Ob(name, where, undecided=f"rejected for another reason: {first(ds)}"))
        else:
            self.report(Ob(name, where))

    def accepted(self, name, src, reasons):
        """`src` must be accepted; a rejection for one of the reasons is a violation"""
        self.n += 1
        ok, ds = self.lib.witness(HEAD + src)
        where = "witness: " + re.sub(r"\s+", " ", src).strip()[:260]
        if ok:
            self.report(Ob(name, where))
        elif any(c in reasons for c in codes(ds)):
            d = next(d for d in ds if (d.get("code") or {}).get("code") in reasons)
            self.report(Ob(name, where, d["message"][:300]))
        else:
            self.report(Ob(name, where, undecided=f"does not compile: {first(ds)}"))


# --- C23 ---------------------------------------------------------------------------------------

# (owner parameter, expression that borrows from it)
BORROWS = [
    ("b: PrimitiveBlock", "b.elements()"),
    ("b: PrimitiveBlock", "b.groups()"),
    ("b: PrimitiveBlock", "b.raw_stringtable()"),
    ("b: PrimitiveBlock", "b.elements().next().unwrap()"),
    ("b: PrimitiveBlock", "b.elements().collect::<Vec<Element>>()"),
    ("b: PrimitiveBlock", "b.groups().next().unwrap()"),
    ("b: PrimitiveBlock", "b.groups().next().unwrap().nodes()"),
    ("b: PrimitiveBlock", "b.groups().next().unwrap().dense_nodes()"),
    ("b: PrimitiveBlock", "b.groups().next().unwrap().ways()"),
    ("b: PrimitiveBlock", "b.groups().next().unwrap().relations()"),
    ("b: HeaderBlock", "b.required_features()"),
    ("b: HeaderBlock", "b.optional_features()"),
    ("b: HeaderBlock", "b.writing_program()"),
    ("b: HeaderBlock", "b.source()"),
    ("b: HeaderBlock", "b.osmosis_replication_base_url()"),
    ("b: Blob", "b.get_type()"),
    ("b: Blob", "b.get_type().as_str().len()"),
    ("b: BlobHeader", "b.blob_type()"),
    ("b: Mmap", "b.blob_iter()"),
    ("b: Mmap", "MmapBlobReader::new(&b)"),
    ("b: Mmap", "b.blob_iter().next().unwrap().unwrap()"),
    ("b: Mmap", "b.blob_iter().map(|x| x.unwrap()).collect::<Vec<MmapBlob>>()"),
    ("b: Mmap", "{ let mut r = MmapBlobReader::new(&b); r.seek(ByteOffset(0)); r.next().unwrap().unwrap() }"),
    ("b: Error", "b.kind()"),
]
# element kinds: (pattern of a value `x` of that kind from a block `b`, expressions that borrow strings or iterators)
ELEMENTS = {
    "Node": ("b.groups().next().unwrap().nodes().next().unwrap()",
             ["x.tags()", "x.tags().next().unwrap()", "x.tags().next().unwrap().0", "x.tags().next().unwrap().1", "x.raw_tags()", "x.info()",
              "x.info().user().unwrap().unwrap()", "x.clone()"]),
    "DenseNode": ("b.groups().next().unwrap().dense_nodes().next().unwrap()",
                  ["x.tags()", "x.tags().next().unwrap()", "x.tags().next().unwrap().0", "x.tags().next().unwrap().1", "x.raw_tags()", "x.clone()",
                   ]),
    "Way": ("b.groups().next().unwrap().ways().next().unwrap()",
            ["x.tags()", "x.tags().next().unwrap()", "x.tags().next().unwrap().0", "x.tags().next().unwrap().1", "x.raw_tags()", "x.info()",
             "x.info().user().unwrap().unwrap()", "x.refs()", "x.node_locations()", "x.clone()"]),
    "Relation": ("b.groups().next().unwrap().relations().next().unwrap()",
                 ["x.tags()", "x.tags().next().unwrap()", "x.tags().next().unwrap().0", "x.tags().next().unwrap().1", "x.raw_tags()", "x.info()",
                  "x.info().user().unwrap().unwrap()", "x.members()", "x.members().next().unwrap()",
                  "x.members().next().unwrap().role().unwrap()", "x.clone()"]),
}
# a reference that is borrowed from the element itself or from its block
OWN = {
    "Node": ["x.raw_stringtable()"],
    "DenseNode": ["x.info()", "x.info().unwrap().user().unwrap()"],
    "Way": ["x.raw_refs()", "x.raw_stringtable()"],
    "Relation": ["x.raw_stringtable()"],
}


def lifetimes(W):
    name = "a borrowed view cannot be used after its data is gone"
    for owner, expr in BORROWS:
        t = owner.split(": ")[1]
        if expr.endswith("len()"):
            continue
        use = "take(v);"
        W.rejected(f"{name}: {t}, {expr}", f"fn f({owner}) {{ let v = {expr}; drop(b); {use} }}",
                   f"fn f({owner}) {{ let v = {expr}; {use} drop(b); }}", LIFETIME)
    for kind, (get, exprs) in ELEMENTS.items():
        W.rejected(f"{name}: {kind}", f"fn f(b: PrimitiveBlock) {{ let v = {get}; drop(b); take(v); }}",
                   f"fn f(b: PrimitiveBlock) {{ let v = {get}; take(v); drop(b); }}", LIFETIME)
        for e in exprs:
            W.rejected(f"{name}: {kind}, {e}", f"fn f(b: PrimitiveBlock) {{ let x = {get}; let v = {e}; drop(b); take(v); }}",
                       f"fn f(b: PrimitiveBlock) {{ let x = {get}; let v = {e}; take(v); drop(b); }}", LIFETIME)
        for e in OWN[kind]:
            W.rejected(f"{name}: {kind}, {e}", f"fn f(b: PrimitiveBlock) {{ let x = {get}; let v = {e}; drop(b); take(v); }}",
                       f"fn f(b: PrimitiveBlock) {{ let x = {get}; let v = {e}; take(v); drop(b); }}", LIFETIME)
        for i in ("nodes", "dense_nodes", "ways", "relations"):
            pass
    # the map must outlive everything that is read from it
    W.rejected(f"{name}: the block decoded from a mapped blob's name",
               "fn f(b: Mmap) { let x = b.blob_iter().next().unwrap().unwrap(); let v = match x.get_type() { BlobType::Unknown(s) => s, _ => \"\" }; drop(x); drop(b); take(v); }",
               "fn f(b: Mmap) { let x = b.blob_iter().next().unwrap().unwrap(); let v = match x.get_type() { BlobType::Unknown(s) => s, _ => \"\" }; take(v); drop(x); drop(b); }",
               LIFETIME)
    W.rejected(f"{name}: name of an unknown blob",
               "fn f(b: Blob) { let v = match b.decode().unwrap() { BlobDecode::Unknown(s) => s, _ => \"\" }; drop(b); take(v); }",
               "fn f(b: Blob) { let v = match b.decode().unwrap() { BlobDecode::Unknown(s) => s, _ => \"\" }; take(v); drop(b); }", LIFETIME)
    W.rejected(f"{name}: name of an unknown mapped blob",
               "fn f(b: Mmap) { let x = b.blob_iter().next().unwrap().unwrap(); let v = match x.decode().unwrap() { BlobDecode::Unknown(s) => s, _ => \"\" }; drop(x); drop(b); take(v); }",
               "fn f(b: Mmap) { let x = b.blob_iter().next().unwrap().unwrap(); let v = match x.decode().unwrap() { BlobDecode::Unknown(s) => s, _ => \"\" }; take(v); drop(x); drop(b); }",
               LIFETIME)
    # nothing that is borrowed can be made to live for ever
    for t in ("Element", "Node", "DenseNode", "Way", "Relation", "TagIter", "DenseTagIter", "RawTagIter", "DenseRawTagIter", "RelMember", "RelMemberIter",
              "WayRefIter", "WayNodeLocationsIter", "Info", "DenseNodeInfo", "PrimitiveGroup", "BlockElementsIter", "GroupIter", "GroupNodeIter",
              "DenseNodeIter", "GroupWayIter", "GroupRelationIter", "MmapBlob", "MmapBlobReader", "BlobType", "BlobDecode"):
        W.rejected(f"a {t} keeps its lifetime", f"fn f<'a>(x: {t}<'a>) -> {t}<'static> {{ x }}", f"fn f<'a>(x: {t}<'a>) -> {t}<'a> {{ x }}", LIFETIME)


# (parameters, call with the closure's body as %s, name of the element, its type, whether it is passed by reference)
CALLBACKS = [
    ("b: &PrimitiveBlock", "b.for_each_element(|e| { %s })", "e", "Element", False),
    ("b: ElementReader<std::fs::File>", "b.for_each(|e| { %s })", "e", "Element", False),
    ("mut b: IndexedReader<std::fs::File>", "b.for_each_node(|e| { %s })", "e", "Element", False),
    ("mut b: IndexedReader<std::fs::File>", "b.read_ways_and_deps(|_| true, |e| { %s })", "e", "Element", True),
    ("mut b: IndexedReader<std::fs::File>", "b.read_ways_and_deps(|e| { %s; true }, |_| {})", "e", "Way", True),
]


def callbacks(W):
    name = "an element handed to a callback cannot be kept"
    for par, call, e, t, ref in CALLBACKS:
        short = call.split("(")[0]
        if t == "Way":
            keeps = [("Vec<Way>", "keep.push(e.clone())"), ("Vec<&Way>", "keep.push(e)"), ("Vec<&str>", "keep.push(e.tags().next().unwrap().0)"),
                     ("Vec<WayRefIter>", "keep.push(e.refs())")]
            free = ("Vec<i64>", "keep.push(e.id())")
        else:
            keeps = [("Vec<&str>", "if let Element::Node(n) = e { keep.push(n.tags().next().unwrap().0) }"),
                     ("Vec<Way>", "if let Element::Way(n) = e { keep.push(n.clone()) }"),
                     ("Vec<Element>" if not ref else "Vec<&Element>", "keep.push(e)")]
            free = ("Vec<i64>", "if let Element::Node(n) = e { keep.push(n.id()) }")
        for ty, body in keeps:
            def src(ty, body):
                return f"fn f({par}) {{ let mut keep: {ty} = Vec::new(); let _ = {call % body}; take(keep); }}"
            W.rejected(f"{name}: {short}, {ty}", src(ty, body), src(*free), LIFETIME)
    def par(ret, body, op):
        return f"fn f(b: ElementReader<std::fs::File>) {{ let r = b.par_map_reduce(|e| {body}, || None, |a: Option<{ret}>, c: Option<{ret}>| {op}); take(r); }}"
    W.rejected(f"{name}: b.par_map_reduce", par("Element", "Some(e)", "a.or(c)"), par("u64", "Some(1)", "a.or(c)"), LIFETIME)
    W.rejected(f"{name}: b.par_map_reduce, tag",
               par("&str", "match e { Element::Way(w) => w.tags().next().map(|t| t.0), _ => None }", "a.or(c)"),
               par("String", "match e { Element::Way(w) => w.tags().next().map(|t| t.0.to_string()), _ => None }", "a.or(c)"), LIFETIME)


def reach(a, starts):
    """Functions of the crate that are reached from the given ones"""
    by = {}
    for f in a["fns"]:
        by.setdefault(f["path"], []).append(f)
    seen, todo = set(), list(starts)
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for f in by.get(p, []):
            for callee, resolved, crate, at, args in f["calls"]:
                for c in (callee, resolved):
                    if c in by and c not in seen:
                        todo.append(c)
        todo.extend(q for q in by if q.startswith(p + "::{closure") and q not in seen)
    return seen


def unsafety(lib, a, report):
    rc, out, ds = lib.compile(["--emit=metadata", "--cap-lints", "warn", "--force-warn", "unsafe_code"] + lib.features_args())
    if rc != 0:
        raise build.BuildError("checking the library failed:\n" + text(ds)[-3000:])
    # functions that a safe caller can enter: everything except unsafe functions and what only those call
    own = [f for f in a["fns"] if not generated(lib, f["at"])]
    called = {c for f in a["fns"] for x in f["calls"] for c in (x[0], x[1]) if c != f["path"]}
    entry = [f["path"] for f in own if not f["unsafe"] and "{closure" not in f["path"] and
             (f["pub"] or f["path"].startswith("<") or f["path"] not in called)]
    safe = reach(a, entry)
    n = 0
    for d in ds:
        if (d.get("code") or {}).get("code") != "unsafe_code" or not d.get("spans"):
            continue
        sp = next((s for s in d["spans"] if s.get("is_primary")), d["spans"][0])
        while sp.get("expansion"):
            sp = sp["expansion"]["span"]
        fn = sp["file_name"]
        p = fn if os.path.isabs(fn) else os.path.join(build.REPO, fn)
        if p.startswith(lib.out_dir):
            continue
        n += 1
        rel = os.path.relpath(p, build.REPO)
        inside = [f for f in own if os.path.join(build.REPO, f["at"][0]) == p and f["at"][1] <= sp["line_start"] and sp["line_end"] <= f["at"][2]]
        f = min(inside, key=lambda f: f["at"][2] - f["at"][1]) if inside else None
        where = f"{f['path'] if f else rel} ({rel}:{sp['line_start']})"
        name = "unsafe code is confined to functions that are marked unsafe"
        m = d["message"]
        if "declaration of an `unsafe`" in m or "implementation of an `unsafe` method" in m:
            continue
        if "block" in m and f is not None:
            outer = [g for g in inside if g["unsafe"]]
            if outer or f["path"] not in safe:
                report(Ob(name, where))
            else:
                report(Ob(name, where, f"{m}, which safe callers reach"))
        else:
            report(Ob(name, where, m))
    by = {f["path"]: f for f in own}
    for f in own:
        if f["unsafe"] and f["pub"]:
            r = reach(a, [f["path"]])
            makes = any(re.match(r"memmap2::.*::map", x[1]) for p in r for g in a["fns"] if g["path"] == p for x in g["calls"])
            report(Ob("only the creation of memory maps is unsafe", f"{f['path']} ({place(f['at'])})",
                      None if makes else "a public unsafe function that creates no memory map"))
    return n


@rule("C23", "type-level witnesses: every borrowing program that outlives its data is rejected by the borrow checker, its twin accepted; unsafe-code inventory with reachability from safe entry points")
def c23(ctx, report):
    lib = Lib()
    W = Witness(lib, report)
    lifetimes(W)
    callbacks(W)
    for f, arg in (("from_path", "\"x\""), ("from_file", "b")):
        W.rejected(f"creating a map is unsafe: {f}", f"fn f(b: &std::fs::File) {{ let m = Mmap::{f}({arg}); take(m); }}",
                   f"fn f(b: &std::fs::File) {{ let m = unsafe {{ Mmap::{f}({arg}) }}; take(m); }}", {"E0133"})
    a = lib.audit()
    n = unsafety(lib, a, report)
    ctx.notes.append(f"{W.n} witness programs with twins, {n} uses of unsafe code, {len(a['fns'])} functions")


# --- C25 ---------------------------------------------------------------------------------------

DATA = ["Blob", "BlobHeader", "BlobType<'static>", "BlobDecode<'static>", "ByteOffset", "HeaderBlock", "HeaderBBox", "PrimitiveBlock",
        "PrimitiveGroup<'static>", "BlockElementsIter<'static>", "GroupIter<'static>", "GroupNodeIter<'static>", "GroupWayIter<'static>",
        "GroupRelationIter<'static>", "DenseNode<'static>", "DenseNodeIter<'static>", "DenseNodeInfo<'static>", "DenseNodeInfoIter<'static>",
        "DenseTagIter<'static>", "DenseRawTagIter<'static>", "Element<'static>", "Node<'static>", "Way<'static>", "Relation<'static>",
        "WayRefIter<'static>", "WayNodeLocation", "WayNodeLocationsIter<'static>", "RelMemberType", "RelMember<'static>",
        "RelMemberIter<'static>", "TagIter<'static>", "RawTagIter<'static>", "Info<'static>", "Error", "ErrorKind", "BlobError",
        "IdRanges", "Mmap", "MmapBlob<'static>"]
READERS = [("BlobReader<R>", "Read + Send"), ("ElementReader<R>", "Read + Send"), ("IndexedReader<R>", "Read + Seek + Send")]


def par(result="u64", map_="1", ident="0", red="a + c", pre=""):
    return (f"fn f(b: ElementReader<std::fs::File>) {{ {pre} let r: Result<{result}> = b.par_map_reduce(|e| {{ {map_} }}, || {{ {ident} }}, "
            f"|a, c| {{ {red} }}); take(r); }}")


@rule("C25", "type-level assertions: Send and Sync obligations for every public type, and witnesses that the parallel operation rejects unshareable functions and unsendable results (with accepted twins)")
def c25(ctx, report):
    lib = Lib()
    W = Witness(lib, report)
    for t in DATA:
        W.accepted(f"{t} can be sent", f"fn f() {{ send::<{t}>(); }}", {"E0277"})
        W.accepted(f"{t} can be shared", f"fn f() {{ sync::<{t}>(); }}", {"E0277"})
    W.accepted("MmapBlobReader can be sent", "fn f() { send::<MmapBlobReader<'static>>(); }", {"E0277"})
    for t, b in READERS:
        W.accepted(f"{t} can be sent when R can", f"fn f<R: {b}>() {{ send::<{t}>(); }}", {"E0277", "E0310"})
        W.accepted(f"{t} can be sent for a concrete source", f"fn f() {{ send::<{t.replace('<R>', '<std::io::BufReader<std::fs::File>>')}>(); }}", {"E0277"})
    # new public types are covered as well
    a = lib.audit()
    known = {t.split("<")[0] for t in DATA} | {t.split("<")[0] for t, _ in READERS} | {"MmapBlobReader"}
    for t in a["adts"]:
        if t["pub"] and not generated(lib, t["at"]) and t["path"].split("::")[-1] not in known:
            ctx.notes.append(f"public type {t['path']} is not in the list of types")
    P = {"E0277"}
    for what, bad, good in [
        ("map function", dict(pre="let k = Rc::new(1u64);", map_="*k"), dict(pre="let k = Arc::new(1u64);", map_="*k")),
        ("map function with a cell", dict(pre="let k = Cell::new(1u64);", map_="k.set(2); 1"), dict(pre="let k = AtomicU64::new(1);", map_="k.store(2, Ordering::SeqCst); 1")),
        ("identity function", dict(pre="let k = Rc::new(1u64);", ident="*k"), dict(pre="let k = Arc::new(1u64);", ident="*k")),
        ("identity function with a cell", dict(pre="let k = Cell::new(1u64);", ident="k.set(2); 0"), dict(pre="let k = AtomicU64::new(1);", ident="k.store(2, Ordering::SeqCst); 0")),
        ("reduce function", dict(pre="let k = Rc::new(1u64);", red="a + c + *k"), dict(pre="let k = Arc::new(1u64);", red="a + c + *k")),
        ("reduce function with a cell", dict(pre="let k = Cell::new(1u64);", red="k.set(2); a + c"), dict(pre="let k = AtomicU64::new(1);", red="k.store(2, Ordering::SeqCst); a + c")),
        ("result", dict(result="Rc<u64>", map_="Rc::new(1)", ident="Rc::new(0)", red="Rc::new(*a + *c)"),
         dict(result="Arc<u64>", map_="Arc::new(1)", ident="Arc::new(0)", red="Arc::new(*a + *c)")),
    ]:
        W.rejected(f"the parallel operation rejects an unshareable {what}" if what != "result" else "the parallel operation rejects an unsendable result",
                   par(**bad), par(**good), P)
    ctx.notes.append(f"{W.n} witness programs")


# --- C27 ---------------------------------------------------------------------------------------

BACKENDS = {"rust-zlib": {"rust_backend", "miniz_oxide", "rust-backend"}, "zlib": {"zlib", "zlib-default"}, "zlib-ng": {"zlib-ng", "zlib-ng-compat"}}


def closure(feats, start):
    out, todo = set(), list(start)
    while todo:
        f = todo.pop()
        if f in out:
            continue
        out.add(f)
        todo.extend(feats.get(f, []))
    return out


@rule("C27", "exhaustive check of the crate's feature lattice: compile-fail witness for every set of two or more backends, acceptance and identical expanded source for each single one, and the manifest's backend map")
def c27(ctx, report):
    lib = Lib()
    with open(os.path.join(build.REPO, "Cargo.toml"), "rb") as f:
        man = tomllib.load(f)
    feats = man.get("features", {})
    where = "Cargo.toml [features]"
    zl = [f for f in BACKENDS]
    for f in zl:
        if f not in feats:
            report(Ob(f"the feature {f} exists", where, undecided="no such feature"))
            return
    dep = man.get("dependencies", {}).get("flate2")
    d = dep if isinstance(dep, dict) else {}
    report(Ob("the decompression library selects no backend of its own", "Cargo.toml [dependencies] flate2",
              None if d.get("default-features", d.get("default_features", True)) is False and not d.get("features") else
              "flate2 is used with its default backend or fixed features"))
    for f in zl:
        got = {x.split("/", 1)[1] for x in closure(feats, [f]) if x.startswith(("flate2/", "flate2?/"))}
        others = [g for g in zl if g != f and g in closure(feats, [f])]
        ok = bool(got) and got <= BACKENDS[f] and not others
        report(Ob(f"the feature {f} selects its backend and no other", where, None if ok else f"it selects {sorted(got)} {others}"))
    dflt = closure(feats, feats.get("default", []))
    sel = [f for f in zl if f in dflt]
    extra = {x for x in dflt if x.startswith("flate2/")} - {"flate2/" + b for f in sel for b in BACKENDS[f]}
    report(Ob("the default configuration selects exactly one backend", where,
              None if len(sel) == 1 and not extra else f"it selects {sel} {sorted(extra)}"))
    others = [f for f in feats if f not in zl and f != "default"]
    expanded = {}
    for k in range(1, len(zl) + 1):
        for fs in itertools.combinations(zl, k):
            name = "+".join(fs)
            rc, out, ds = lib.compile(["--emit=metadata", "--cap-lints", "allow"] + lib.features_args(fs))
            errs = [x for x in ds if x.get("level") == "error" and not x["message"].startswith("aborting")]
            if k == 1:
                report(Ob(f"{name} alone is accepted", f"src/lib.rs with {name}", None if rc == 0 else f"rejected: {first(errs)}"))
                rc, out, ds = lib.compile(["-Zunpretty=expanded", "--cap-lints", "allow"] + lib.features_args(fs))
                expanded[name] = "\n".join(x for x in out.splitlines() if not x.strip().startswith(("//", "#[doc", "#![doc"))) if rc == 0 else None
            else:
                if rc == 0:
                    report(Ob(f"{name} together are rejected", f"src/lib.rs with {name}", "the crate compiles with more than one backend"))
                else:
                    report(Ob(f"{name} together are rejected", f"src/lib.rs with {name}"))
    ref = zl[0]
    for f in zl[1:]:
        if expanded[f] is None or expanded[ref] is None:
            continue
        diff = None
        if expanded[f] != expanded[ref]:
            x, y = expanded[ref].splitlines(), expanded[f].splitlines()
            i = next((i for i, (p, q) in enumerate(itertools.zip_longest(x, y)) if p != q), 0)
            diff = f"the code differs between {ref} and {f}: {(x[i] if i < len(x) else '(end)').strip()[:120]} | {(y[i] if i < len(y) else '(end)').strip()[:120]}"
        report(Ob(f"the code of the crate is the same with {f} as with {ref}", f"src/lib.rs with {f}", diff))
    # a feature tested at run time would not show in the expanded source of one configuration alone
    ctx.notes.append(f"features {sorted(feats)}, {len(expanded)} single configurations, further features {others}")
