"""C22: the wire schema. The .proto sources and the compiled decoder against the published schema."""
import glob
import os
import re
from . import build, spec
from .lib import Lib
from .props import rule
from .rules import Ob

# fields that the library never looks at: they may be missing from the schema
UNUSED = {("Blob", n) for n in (2, 4, 5, 6, 7)} | {("BlobHeader", 2), ("PrimitiveGroup", 5), ("ChangeSet", 1)}
READERS = {"int32": "int32", "int64": "int64", "uint32": "uint32", "uint64": "uint64", "sint32": "sint32", "sint64": "sint64",
           "bool": "bool", "string": "string", "bytes": "bytes", "fixed32": "fixed32", "fixed64": "fixed64", "sfixed32": "sfixed32",
           "sfixed64": "sfixed64", "double": "double", "float": "float"}
VARINT = {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool"}


def norm_default(f):
    d = f.opts.get("default")
    return None if d in ("0", "false", '""', "") else d


def schema(report):
    where_of = {}
    for fn in ("fileformat", "osmformat"):
        p = os.path.join(build.REPO, "src/proto", fn + ".proto")
        src = open(p).read()
        m, e = spec.parse_proto(p)
        for x in list(m) + list(e):
            where_of[x] = f"src/proto/{fn}.proto"
        t = spec.tokens(src)
        i = t.index("syntax") if "syntax" in t else None
        syn = t[i + 2].strip('"') if i is not None else "proto2"
        report(Ob(f"{fn} uses the published syntax", f"src/proto/{fn}.proto", None if syn == "proto2" else f"syntax {syn}"))
    msgs, enums = spec.load_schema()
    n = 0
    for name, fields in spec.PUBLISHED.items():
        if name not in msgs:
            report(Ob(f"message {name}", "src/proto", undecided="no message of this name"))
            continue
        where = f"{where_of[name]}, message {name}"
        for num, want in fields.items():
            label, ty = want[0], want[1]
            packed = want[2] if len(want) > 2 else False
            default = want[3] if len(want) > 3 else None
            default = None if default == "0" else default
            pub = spec.NAMES[name][num]
            f = msgs[name].get(num)
            n += 1
            what = f"field {num} of {name} is the published {pub}"
            if f is None:
                if (name, num) not in UNUSED:
                    report(Ob(what, where, "the field is missing"))
                continue
            bad = []
            if f.name != pub and f.name in spec.NAMES[name].values():
                bad.append(f"it is called {f.name}, which is the published name of another field")
            if f.ty.split(".")[-1] != ty:
                bad.append(f"its type is {f.ty} instead of {ty}")
            got = "oneof" if f.oneof else f.label
            if got != label and not (label == "oneof" and got == "optional") and (name, num) not in UNUSED:
                bad.append(f"it is {got} instead of {label}")
            if label == "repeated" and (f.opts.get("packed") == "true") != bool(packed):
                bad.append(f"packed is {f.opts.get('packed', 'false')}")
            if norm_default(f) != default:
                bad.append(f"its default is {f.opts.get('default')} instead of {default}")
            report(Ob(what, where, "; ".join(bad) or None))
        for num, f in msgs[name].items():
            if num not in fields:
                alias = f.name in spec.NAMES[name].values()
                report(Ob(f"{name} has only published fields", where,
                          f"field {num} ({f.name}) is not part of the published format" if alias or f.label == "required" else None))
    for name, vals in spec.PUBLISHED_ENUMS.items():
        if name not in enums:
            report(Ob(f"enum {name}", "src/proto", undecided="no enum of this name"))
            continue
        report(Ob(f"the values of {name} are the published ones", f"{where_of[name]}, enum {name}",
                  None if all(enums[name].get(k) == v for k, v in vals.items()) else f"they are {enums[name]}"))
    return msgs, enums, n


def wire(ty, packed, num, enums):
    """Wire tag of a field"""
    if ty in VARINT or ty in enums:
        w = 0
    elif ty in ("fixed64", "sfixed64", "double"):
        w = 1
    elif ty in ("fixed32", "sfixed32", "float"):
        w = 5
    else:
        w = 2
    return num << 3 | w, num << 3 | 2


def block(src, i):
    """The text of the braces that open at or after i"""
    i = src.index("{", i)
    d, j = 0, i
    while True:
        if src[j] == "{":
            d += 1
        elif src[j] == "}":
            d -= 1
            if d == 0:
                return src[i + 1:j], j
        j += 1


def decoder(lib, msgs, enums, report):
    """The decoder that is compiled into the library: each arm reads the published kind of value into the published field"""
    n = 0
    for fn in ("fileformat", "osmformat"):
        p = os.path.join(lib.out_dir, fn + ".rs")
        if not os.path.exists(p):
            report(Ob("the generated decoder", fn, undecided="no generated source"))
            continue
        src = open(p).read()
        for m in re.finditer(r"impl ::protobuf::Message for (\w+) \{", src):
            name = m.group(1)
            if name not in spec.PUBLISHED:
                continue
            body, _ = block(src, m.end() - 1)
            k = body.find("fn merge_from")
            if k < 0:
                report(Ob(f"decoder of {name}", fn, undecided="no decoding function is found"))
                continue
            mf, _ = block(body, k)
            arms = {}
            for a in re.finditer(r"(?m)^\s*(\d+) => \{", mf):
                t, _ = block(mf, a.end() - 1)
                arms[int(a.group(1))] = re.sub(r"\s+", " ", t).strip()
            for num, want in spec.PUBLISHED[name].items():
                f = msgs.get(name, {}).get(num)
                if f is None:
                    continue
                n += 1
                ty = want[1]
                tag, ptag = wire(ty, False, num, spec.PUBLISHED_ENUMS)
                where = f"{fn}.rs (generated), decoder of {name}"
                what = f"field {num} of {name} is decoded as {ty} into {f.name}"
                arm = arms.get(tag)
                if arm is None:
                    report(Ob(what, where, f"no arm for tag {tag}"))
                    continue
                field = spec.rust_name(f.name)
                rd = READERS.get(ty)
                oneof = f.oneof is not None
                dest = f.oneof if oneof else field
                bad = []
                if f"self.{dest}" not in arm:
                    bad.append(f"the arm of tag {tag} does not set {dest}: {arm[:80]}")
                if rd is not None and f"read_{rd}(" not in arm:
                    bad.append(f"the arm of tag {tag} does not read {ty}: {arm[:80]}")
                if oneof and "".join(x.capitalize() for x in f.name.split("_")).lower() + "(" not in arm.lower().replace("_", ""):
                    bad.append(f"the arm of tag {tag} sets another alternative: {arm[:80]}")
                if want[0] == "repeated" and tag != ptag:
                    pk = arms.get(ptag)
                    if pk is None:
                        bad.append(f"no arm for packed values (tag {ptag})")
                    elif f"self.{dest}" not in pk or (rd is not None and f"_{rd}_into(" not in pk):
                        bad.append(f"the arm of the packed values is {pk[:80]}")
                report(Ob(what, where, "; ".join(bad) or None))
            known = {t for num, w in spec.PUBLISHED[name].items() for t in wire(w[1], False, num, spec.PUBLISHED_ENUMS)}
            for t in sorted(set(arms) - known):
                if any(f"self.{spec.rust_name(x)}" in arms[t] for x in spec.NAMES[name].values()):
                    report(Ob(f"{name} is decoded from published fields only", f"{fn}.rs (generated)", f"tag {t}: {arms[t][:80]}"))
            # defaults of the accessors
            for num, want in spec.PUBLISHED[name].items():
                d = want[3] if len(want) > 3 else None
                f = msgs.get(name, {}).get(num)
                if f is None or want[1] not in VARINT or want[0] in ("repeated", "oneof"):
                    continue
                g = re.search(r"pub fn " + spec.rust_name(f.name) + r"\(&self\) -> \w+ \{\s*self\.\w+\.unwrap_or\(([^)]*)\)", imp(src, name))
                if g is None:
                    report(Ob(f"default of {name}.{f.name}", f"{fn}.rs (generated)", undecided="no accessor is found"))
                    continue
                got = re.sub(r"(i32|i64|u32|u64)$", "", g.group(1)).replace("false", "0").replace("true", "1")
                report(Ob(f"an absent {name}.{f.name} reads as {d or 0}", f"{fn}.rs (generated)",
                          None if got == (d or "0") else f"it reads as {got}"))
    return n


def imp(src, name):
    m = re.search(r"(?m)^impl " + name + r" \{", src)
    return block(src, m.end() - 1)[0] if m else ""


@rule("C22", "comparison of every field of the .proto sources with the published schema, and of every arm of the decoder that is generated from them and compiled into the library (tag, kind of value, destination, default)")
def c22(ctx, report):
    msgs, enums, n = schema(report)
    lib = Lib()
    k = decoder(lib, msgs, enums, report)
    ctx.notes.append(f"{n} published fields, {k} decoder arms")
