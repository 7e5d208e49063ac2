"""What the stored messages mean: the published schema, and the values that a report has to equal."""
import os
import re
from .dd import *
from .values import *
from .engine import Imprecise

REPO = os.environ.get("VFA_REPO", "/repo")


# ------------------------------------------------------------------ .proto files
def tokens(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    return re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|-?\d+|[{}\[\]=;,()]', text)


class Field:
    def __init__(self, name, num, label, ty, opts, oneof):
        self.name, self.num, self.label, self.ty, self.opts, self.oneof = name, num, label, ty, opts, oneof

    def __repr__(self):
        return f"{self.label} {self.ty} {self.name} = {self.num} {self.opts} {self.oneof or ''}"


def parse_proto(path):
    """{message: {number: Field}}, {enum: {name: number}}"""
    t = tokens(open(path).read())
    msgs, enums, i = {}, {}, 0

    def skip_stmt(i):
        d = 0
        while True:
            if t[i] == "{":
                d += 1
            if t[i] == "}":
                d -= 1
                if d == 0:
                    return i + 1
            if t[i] == ";" and d == 0:
                return i + 1
            i += 1

    def enum(i):
        name = t[i + 1]
        i += 3
        vals = {}
        while t[i] != "}":
            if t[i] == "option":
                i = skip_stmt(i)
                continue
            vals[t[i]] = int(t[i + 2])
            i = skip_stmt(i)
        enums[name] = vals
        return i + 1

    def message(i):
        name = t[i + 1]
        fs = {}
        i = body(i + 3, fs, None)
        msgs[name] = fs
        return i

    def body(i, fs, oneof):
        while t[i] != "}":
            if t[i] == "message":
                i = message(i)
            elif t[i] == "enum":
                i = enum(i)
            elif t[i] == "oneof":
                i = body(i + 3, fs, t[i + 1])
            elif t[i] in ("option", "reserved", "extensions", "extend"):
                i = skip_stmt(i)
            elif t[i] == ";":
                i += 1
            else:
                label = "oneof" if oneof else ""
                if t[i] in ("optional", "required", "repeated"):
                    label = t[i]
                    i += 1
                ty, name, num = t[i], t[i + 1], int(t[i + 3])
                i += 4
                opts = {}
                if t[i] == "[":
                    i += 1
                    while t[i] != "]":
                        if t[i] == ",":
                            i += 1
                            continue
                        opts[t[i]] = t[i + 2].strip('"')
                        i += 3
                    i += 1
                fs[num] = Field(name, num, label, ty, opts, oneof)
                i += 1
        return i + 1

    while i < len(t):
        if t[i] == "message":
            i = message(i)
        elif t[i] == "enum":
            i = enum(i)
        else:
            i = skip_stmt(i)
    return msgs, enums


KEYWORDS = {"type", "ref", "self", "match", "mod", "use", "fn", "move", "box", "in", "as", "impl", "struct", "enum", "loop", "where"}


def rust_name(n):
    n = n.lower() if not re.search("[a-z]", n) else n
    return "type_" if n == "type" else n


def load_schema():
    msgs, enums = {}, {}
    for f in ("fileformat", "osmformat"):
        m, e = parse_proto(os.path.join(REPO, "src/proto", f + ".proto"))
        msgs.update(m)
        enums.update(e)
    return msgs, enums


class Spec:
    """Expected values over message terms of one analysis."""

    def __init__(self, an):
        self.an = an
        self.msgs, self.enums = load_schema()

    def proto_type(self, ty):
        """Message name if ty is a generated message type of the library."""
        p = self.an.ty.path(ty)
        m = re.search(r"(osmformat|fileformat)::(?:[a-z_]+::)*([A-Z]\w*)$", p)
        return m.group(2) if m and m.group(2) in self.msgs else None

    def find_message(self, v, ty, name, depth=0):
        """The message of the given type inside a value of a public wrapper type."""
        an = self.an
        if depth > 5 or ty is None:
            return None
        if self.proto_type(ty) == name:
            return v
        k = an.ty[ty]
        pt = an.ty.pointee(ty)
        if pt is not None and an.ty[pt]["k"] not in ("slice", "str", "dyn"):
            lv = an.targets(v, pt)
            from .engine import State
            x = an.read_lv(State(TRUE, {}), lv, pt)
            return self.find_message(x, pt, name, depth + 1)
        if k["k"] == "adt" and k["kind"] == "struct" or k["k"] == "tuple":
            for i, (n, ft) in enumerate(an.ty.fields(ty)):
                if an.ty[ft]["k"] in ("adt", "ref", "tuple"):
                    if an.ty[ft]["k"] == "adt" and an.ty[ft]["path"].startswith(("core::", "std::")) and "boxed" not in an.ty[ft]["path"]:
                        continue
                    r = self.find_message(an.get_field(v, ty, None, i), ft, name, depth + 1)
                    if r is not None:
                        return r
        return None

    def field_index(self, msg, num):
        m = self.proto_type(msg.ty)
        f = self.msgs[m].get(num)
        if f is None:
            raise SpecError(f"message {m} has no field number {num}")
        for i, (n, ft) in enumerate(self.an.ty.fields(msg.ty)):
            if n == rust_name(f.name):
                return i, ft, f
        raise SpecError(f"generated message {m} has no field {f.name}")

    def raw(self, msg, num):
        i, ft, f = self.field_index(msg, num)
        return self.an.fld(msg, msg.ty, None, i), ft, f

    def raw_over(self, msg, num):
        """raw for a diagram of message terms"""
        out = None
        for l, g in leaves(msg):
            if l is UNDEF:
                continue
            v, ft, f = self.raw(l, num)
            out = v if out is None else self.an.merge(g, v, out, ft)
        return out

    def opt(self, msg, num):
        """(predicate: present, payload) of an optional or required scalar or string field"""
        v, ft, f = self.raw(msg, num)
        e = self.an.expand(v, ft)
        p = map1(lambda x: FALSE if x is UNDEF else eq(x, ONE), e.d)
        pl = e.payload(1)
        return p, (pl[0] if pl else UNDEF)

    def val(self, msg, num):
        """Value with the published default (scalars)"""
        p, x = self.opt(msg, num)
        d = DEFAULTS.get((self.proto_type(msg.ty), num), 0)
        return ite(p, x, num_(d))

    def has(self, msg, num):
        """(predicate, message term) of a singular message field"""
        v, ft, f = self.raw(msg, num)
        an = self.an
        o = an.get_field(v, ft, None, 0)
        ot = an.ty.fields(ft)[0][1]
        e = an.expand(o, ot)
        p = map1(lambda x: FALSE if x is UNDEF else eq(x, ONE), e.d)
        pl = e.payload(1)
        if pl is None:
            return FALSE, UNDEF
        bt = an.ty.fields(ot, 1)[0][1]
        pt = an.ty.pointee(bt)
        from .engine import State
        return p, an.read_lv(State(TRUE, {}), an.targets(pl[0], pt), pt)

    def one(self, msg, num):
        """(predicate: this member of the oneof is set, payload)"""
        an = self.an
        f = self.msgs[self.proto_type(msg.ty)].get(num)
        if f is None or not f.oneof:
            raise SpecError(f"field number {num} is not part of a oneof")
        for i, (n, ft) in enumerate(an.ty.fields(msg.ty)):
            if n == rust_name(f.oneof):
                break
        else:
            raise SpecError(f"no field for oneof {f.oneof}")
        o = an.expand(an.fld(msg, msg.ty, None, i), ft)
        some = map1(lambda x: FALSE if x is UNDEF else eq(x, ONE), o.d)
        pl = o.payload(1)
        if pl is None:
            return FALSE, UNDEF
        et = an.ty[ft]["args"][0]
        e = an.expand(pl[0], et)
        want = "".join(p.capitalize() for p in f.name.lower().split("_"))
        for vi, v in enumerate(an.ty[et]["variants"]):
            if v["name"].lower() == want.lower():
                x = e.payload(vi)
                return p_and(some, map1(lambda y: FALSE if y is UNDEF else eq(y, num_(vi)), e.d)), (x[0] if x else UNDEF)
        raise SpecError(f"no variant for {f.name}")

    def rep(self, msg, num):
        """Sequence value of a repeated field and its element type"""
        v, ft, f = self.raw(msg, num)
        return v, self.an.ty.elem(ft)

    def rlen(self, msg, num):
        v, _ = self.rep(msg, num)
        return self.an.len_of(v)

    def relem(self, msg, num, i):
        v, ety = self.rep(msg, num)
        return self.an.elem_of(v, i, ety)


def num_(n):
    from .dd import num
    return num(n)


class SpecError(Exception):
    pass


DEFAULTS = {("PrimitiveBlock", 17): 100, ("PrimitiveBlock", 18): 1000, ("Info", 1): -1}

# The published schema: message -> number -> (label, type, packed, default)
R, O, P = "required", "optional", "repeated"
PUBLISHED = {
    "BlobHeader": {1: (R, "string"), 2: (O, "bytes"), 3: (R, "int32")},
    "Blob": {1: ("oneof", "bytes"), 2: (O, "int32"), 3: ("oneof", "bytes"), 4: ("oneof", "bytes"), 5: ("oneof", "bytes"),
             6: ("oneof", "bytes"), 7: ("oneof", "bytes")},
    "HeaderBlock": {1: (O, "HeaderBBox"), 4: (P, "string"), 5: (P, "string"), 16: (O, "string"), 17: (O, "string"),
                    32: (O, "int64"), 33: (O, "int64"), 34: (O, "string")},
    "HeaderBBox": {1: (R, "sint64"), 2: (R, "sint64"), 3: (R, "sint64"), 4: (R, "sint64")},
    "PrimitiveBlock": {1: (R, "StringTable"), 2: (P, "PrimitiveGroup"), 17: (O, "int32", False, "100"), 18: (O, "int32", False, "1000"),
                       19: (O, "int64", False, "0"), 20: (O, "int64", False, "0")},
    "PrimitiveGroup": {1: (P, "Node"), 2: (O, "DenseNodes"), 3: (P, "Way"), 4: (P, "Relation"), 5: (P, "ChangeSet")},
    "StringTable": {1: (P, "bytes")},
    "Info": {1: (O, "int32", False, "-1"), 2: (O, "int64"), 3: (O, "int64"), 4: (O, "int32"), 5: (O, "uint32"), 6: (O, "bool")},
    "DenseInfo": {1: (P, "int32", True), 2: (P, "sint64", True), 3: (P, "sint64", True), 4: (P, "sint32", True), 5: (P, "sint32", True),
                  6: (P, "bool", True)},
    "ChangeSet": {1: (R, "int64")},
    "Node": {1: (R, "sint64"), 2: (P, "uint32", True), 3: (P, "uint32", True), 4: (O, "Info"), 8: (R, "sint64"), 9: (R, "sint64")},
    "DenseNodes": {1: (P, "sint64", True), 5: (O, "DenseInfo"), 8: (P, "sint64", True), 9: (P, "sint64", True), 10: (P, "int32", True)},
    "Way": {1: (R, "int64"), 2: (P, "uint32", True), 3: (P, "uint32", True), 4: (O, "Info"), 8: (P, "sint64", True),
            9: (P, "sint64", True), 10: (P, "sint64", True)},
    "Relation": {1: (R, "int64"), 2: (P, "uint32", True), 3: (P, "uint32", True), 4: (O, "Info"), 8: (P, "int32", True),
                 9: (P, "sint64", True), 10: (P, "MemberType", True)},
}
PUBLISHED_ENUMS = {"MemberType": {"NODE": 0, "WAY": 1, "RELATION": 2}}
# the published names (a known name under another number is a field that is read from the wrong place)
NAMES = {
    "BlobHeader": {1: "type", 2: "indexdata", 3: "datasize"},
    "Blob": {1: "raw", 2: "raw_size", 3: "zlib_data", 4: "lzma_data", 5: "OBSOLETE_bzip2_data", 6: "lz4_data", 7: "zstd_data"},
    "HeaderBlock": {1: "bbox", 4: "required_features", 5: "optional_features", 16: "writingprogram", 17: "source", 32: "osmosis_replication_timestamp", 33: "osmosis_replication_sequence_number", 34: "osmosis_replication_base_url"},
    "HeaderBBox": {1: "left", 2: "right", 3: "top", 4: "bottom"},
    "PrimitiveBlock": {1: "stringtable", 2: "primitivegroup", 17: "granularity", 18: "date_granularity", 19: "lat_offset", 20: "lon_offset"},
    "PrimitiveGroup": {1: "nodes", 2: "dense", 3: "ways", 4: "relations", 5: "changesets"},
    "StringTable": {1: "s"},
    "Info": {1: "version", 2: "timestamp", 3: "changeset", 4: "uid", 5: "user_sid", 6: "visible"},
    "DenseInfo": {1: "version", 2: "timestamp", 3: "changeset", 4: "uid", 5: "user_sid", 6: "visible"},
    "ChangeSet": {1: "id"},
    "Node": {1: "id", 2: "keys", 3: "vals", 4: "info", 8: "lat", 9: "lon"},
    "DenseNodes": {1: "id", 5: "denseinfo", 8: "lat", 9: "lon", 10: "keys_vals"},
    "Way": {1: "id", 2: "keys", 3: "vals", 4: "info", 8: "refs", 9: "lat", 10: "lon"},
    "Relation": {1: "id", 2: "keys", 3: "vals", 4: "info", 8: "roles_sid", 9: "memids", 10: "types"},
}
