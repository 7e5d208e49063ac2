"""The exported program: types, bodies, and the inlined control flow graph of a root."""
import json
from . import dd
from .dd import INF


POINTERS = ("ptr::unique::Unique", "ptr::non_null::NonNull", "boxed::BoxRaw")


class Types:
    def __init__(self, types):
        self.t = types
        self.by_str = {}
        for i, t in enumerate(types):
            self.by_str.setdefault(t["s"], i)

    def __getitem__(self, i):
        return self.t[i]

    def range(self, i):
        t = self.t[i]
        k = t["k"]
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        if k == "int":
            b = t["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)
        return None

    def is_int(self, i):
        return self.t[i]["k"] in ("int", "bool", "char")

    def path(self, i):
        t = self.t[i]
        return t.get("path", "") if t["k"] in ("adt", "closure", "fndef") else ""

    def is_enum(self, i):
        return self.t[i]["k"] == "adt" and self.t[i]["kind"] == "enum"

    def fields(self, i, vi=None):
        """[(name, type)] of a struct/tuple/closure or an enum variant"""
        t = self.t[i]
        if t["k"] == "adt":
            v = t["variants"][vi or 0]
            return [(f[0], f[1]) for f in v["fields"]]
        if t["k"] in ("tuple", "closure"):
            return [(str(n), x) for n, x in enumerate(t["tys"])]
        return None

    def vname(self, i, vi):
        return self.t[i]["variants"][vi]["name"]

    def pointee(self, i):
        t = self.t[i]
        if t["k"] in ("ref", "ptr"):
            return t["to"]
        if t["k"] == "adt" and (t["box"] or t["path"].endswith(POINTERS)):
            return t["args"][0]
        return None

    def is_wrapper(self, i):
        """Box/Unique/NonNull: transparent around a pointer"""
        t = self.t[i]
        return t["k"] == "adt" and (t["box"] or t["path"].endswith(POINTERS) or t["path"].endswith("mem::manually_drop::ManuallyDrop"))

    def elem(self, i):
        t = self.t[i]
        if t["k"] in ("slice", "array"):
            return t["elem"]
        if t["k"] == "adt" and t["args"]:
            return t["args"][0]
        return None

    def name(self, i):
        return self.t[i]["s"]


class Frame:
    def __init__(self, id, body, key, parent, depth, call_sp):
        self.id, self.body, self.key, self.parent, self.depth, self.sp = id, body, key, parent, depth, call_sp
        self.nodes = {}

    def chain(self):
        f, r = self, []
        while f:
            r.append(f.body["path"])
            f = f.parent
        return r


class N:
    __slots__ = ("id", "frame", "bb", "stmts", "term", "succ", "rpo", "header", "live", "sp", "scope")

    def __repr__(self):
        return f"n{self.id}({self.frame.body['path'].split('::')[-1]}/bb{self.bb})"


def places_in(x, f):
    """Call f(place, mode) for every place in an exported operand/rvalue/terminator (mode 'use'/'ref'/'def')."""
    k = x[0] if x else None
    if k in ("c", "m"):
        f(x[1], "use")
    elif k == "k" or k == "rc":
        pass


def _rv_places(r, f):
    k = r[0]
    if k in ("use", "repeat"):
        places_in(r[1], f)
    elif k == "ref":
        f(r[2], "ref")
    elif k == "raw":
        f(r[2], "ref")
    elif k == "cast":
        places_in(r[2], f)
    elif k == "bin":
        places_in(r[2], f)
        places_in(r[3], f)
    elif k == "un":
        places_in(r[2], f)
    elif k == "disc":
        f(r[1], "use")
    elif k == "agg":
        for o in r[2]:
            places_in(o, f)


def liveness(body):
    """live-in sets of locals per block; locals whose address is taken are reported separately."""
    if "_live" in body:
        return body["_live"], body["_addr"]
    bl = body["blocks"]
    addr = set()

    def succs(t):
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        if k == "switch":
            return [b for _, b in t["v"]] + [t["else"]]
        return []
    gens, kills = [], []
    for b in bl:
        g, kl = set(), set()

        def use(p, mode):
            l = p[0]
            if mode == "ref" and not any(e[0] == "*" for e in p[1]):
                addr.add(l)
            if l not in kl:
                g.add(l)
            for e in p[1]:
                if e[0] == "i" and e[1] not in kl:
                    g.add(e[1])

        def define(p):
            if not p[1]:
                kl.add(p[0])
            else:
                use(p, "use")
        for s in b["s"]:
            if s[0] == "=":
                _rv_places(s[2], use)
                define(s[1])
            elif s[0] == "setd":
                use(s[1], "use")
            elif s[0] == "dead":
                kl.add(s[1])
            elif s[0] == "assume":
                places_in(s[1], use)
        t = b["t"]
        k = t["k"]
        if k == "switch":
            places_in(t["d"], use)
        elif k == "call":
            for a in t["a"]:
                places_in(a, use)
            if t["f"].get("kind") == "fnptr":
                places_in(t["f"]["op"], use)
            define(t["dst"])
        elif k == "assert":
            places_in(t["c"], use)
            for o in t["msg"][1:]:
                if isinstance(o, list) and o and o[0] in ("c", "m"):
                    places_in(o, use)
        elif k == "ret":
            if 0 not in kl:
                g.add(0)
        gens.append(g)
        kills.append(kl)
    live = [set() for _ in bl]
    ch = True
    while ch:
        ch = False
        for i in range(len(bl) - 1, -1, -1):
            o = set()
            for s in succs(bl[i]["t"]):
                o |= live[s]
            n = gens[i] | (o - kills[i])
            if n != live[i]:
                live[i] = n
                ch = True
    body["_live"], body["_addr"] = live, addr
    return live, addr


class Program:
    def __init__(self, dump, models):
        d = dump if isinstance(dump, dict) else json.load(open(dump))
        self.types = Types(d["types"])
        self.bodies = d["bodies"]
        self.roots = dict(d["roots"])
        self.models = models
        self.max_depth = 70

    def has_model(self, callee):
        return self.models.lookup(callee) is not None


class Graph:
    """Inlined supergraph of one root."""

    def __init__(self, prog, key, stop=None):
        self.prog = prog
        self.nodes = []
        self.frames = []
        self.leafs = {}
        self.stop = stop
        self.root = self.new_frame(key, None, None)
        self.entry = self.build(self.root)
        self.order()

    def new_frame(self, key, parent, sp):
        body = self.prog.bodies[key]
        f = Frame(len(self.frames), body, key, parent, parent.depth + 1 if parent else 0, sp)
        self.frames.append(f)
        return f

    def target_body(self, callee, frame):
        """The key of the body to inline for this callee, or None."""
        c = callee
        if c.get("kind") == "fnptr_shim" and c.get("target"):
            c = c["target"]
        k = c.get("key")
        if not k or k not in self.prog.bodies or "error" in self.prog.bodies[k]:
            return None
        if self.prog.has_model(c):
            return None
        if frame.depth >= self.prog.max_depth:
            return None
        f = frame
        n = 0
        while f:
            if f.key == k:
                n += 1
            f = f.parent
        if n >= 2:
            return None
        return k

    def build(self, frame):
        body = frame.body
        live, addr = liveness(body)
        ids = {}
        stack = [0]
        order = []
        while stack:
            b = stack.pop()
            if b in ids:
                continue
            n = N()
            n.id = len(self.nodes)
            n.frame, n.bb = frame, b
            blk = body["blocks"][b]
            n.stmts, n.term = blk["s"], blk["t"]
            n.succ = []
            n.header = False
            n.live = live[b]
            n.sp = blk["t"].get("sp", "")
            self.nodes.append(n)
            ids[b] = n
            order.append(b)
            t = n.term
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                stack.append(t["to"])
            elif k == "switch":
                stack.extend([x for _, x in t["v"]] + [t["else"]])
            elif k == "call" and t["to"] is not None:
                stack.append(t["to"])
        frame.nodes = ids
        frame.rets = []
        for b in order:
            n = ids[b]
            t = n.term
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                n.succ = [ids[t["to"]].id]
            elif k == "switch":
                seen = []
                for x in [x for _, x in t["v"]] + [t["else"]]:
                    if ids[x].id not in seen:
                        seen.append(ids[x].id)
                n.succ = seen
            elif k == "ret":
                frame.rets.append(n)
            elif k == "call":
                key = self.target_body(t["f"], frame)
                if key is not None:
                    cf = self.new_frame(key, frame, t.get("sp"))
                    e = self.build(cf)
                    n.term = dict(t, k="enter", frame=cf, entry=e.id)
                    n.succ = [e.id]
                    for r in cf.rets:
                        r.term = dict(k="leave", frame=cf, dst=t["dst"], dty=t["dty"], caller=frame,
                                      to=None if t["to"] is None else ids[t["to"]].id)
                        r.succ = [] if t["to"] is None else [ids[t["to"]].id]
                else:
                    n.succ = [] if t["to"] is None else [ids[t["to"]].id]
        return ids[0]

    def order(self):
        """Reverse postorder and loop headers (targets of retreating edges)."""
        state = {}
        post = []
        self.headers = set()
        st = [(self.entry.id, iter(self.nodes[self.entry.id].succ))]
        state[self.entry.id] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    st.append((s, iter(self.nodes[s].succ)))
                    break
                elif state[s] == 1:
                    self.headers.add(s)
            else:
                state[n] = 2
                post.append(n)
                st.pop()
        for i, n in enumerate(reversed(post)):
            self.nodes[n].rpo = i
        for h in self.headers:
            self.nodes[h].header = True
        self.reach = set(post)
