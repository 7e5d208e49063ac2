"""Rules over the inventory of the library: statics, types with interior mutability, and the effects of its calls."""
import os
import re
from . import build, ioprops
from .lib import Lib
from .props import rule
from .rules import Ob

# Functions with an effect outside of the arguments, or a dependence on something else than the arguments.
EFFECTS = [
    ("changes files", re.compile(
        r"^std::fs::(write|remove_\w+|rename|copy|hard_link|soft_link|create_dir\w*|set_permissions|set_times\w*|DirBuilder\b.*|"
        r"File::(create\w*|set_len|set_permissions|set_modified|set_times|sync_all|sync_data)|"
        r"OpenOptions::(write|append|create|create_new|truncate))$")),
    ("changes files", re.compile(r"^<&?(std::fs::)?File as (\w+::)*Write\w*>|^<&?'?\w* ?std::fs::File as (\w+::)*write::Write>|^std::os::unix::fs::|FileExt.*write")),
    ("reads something else than its arguments", re.compile(r"^std::fs::(read|read_to_string|read_dir|read_link|exists)$")),
    ("uses the environment", re.compile(r"^std::env::")),
    ("uses processes", re.compile(r"^std::process::")),
    ("uses the network", re.compile(r"^std::net::|^std::os::unix::net::")),
    ("depends on the time", re.compile(r"^std::time::(Instant|SystemTime)::(now|elapsed)$|^std::time::.*::now$")),
    ("uses the standard streams", re.compile(r"^std::io::stdio::|^std::io::(stdin|stdout|stderr|_print|_eprint)")),
    ("uses thread-local state", re.compile(r"^std::thread::local::|^std::thread::LocalKey|^thread_local |^std::thread::(current|park|sleep)|"
                                           r"^std::thread::(functions|current)::|^rayon_core::current_thread_index|^rayon::current_thread_index")),
    ("changes a global hook", re.compile(r"^std::panicking::(set_hook|take_hook)|^std::panic::(set_hook|take_hook)|^std::alloc::set_alloc_error_hook|"
                                         r".*ThreadPoolBuilder.*::build_global$")),
    ("maps memory for writing", re.compile(r"^memmap2::.*(MmapMut|map_mut|make_mut|map_copy|map_anon|map_raw)")),
    ("calls foreign code", re.compile(r"^foreign ")),
]
STATIC = re.compile(r"^static ")
READERS = re.compile(r"Reader$")


def place(at):
    p, lo = at[0], at[1]
    if p.startswith(build.REPO + "/"):
        p = p[len(build.REPO) + 1:]
    return f"{p}:{lo}"


def generated(lib, at):
    return at[0].startswith(lib.out_dir)


def effects(callee, resolved, args):
    for what, rx in EFFECTS:
        if rx.search(callee) or rx.search(resolved):
            return what
    # a generic writer that is used with a file
    if "::Write::" in callee and "std::fs::File" in args:
        return "changes files"
    return None


def state(lib, a, report):
    for s in a["statics"]:
        if generated(lib, s["at"]):
            continue
        name, where = f"static {s['path']} cannot change", f"{s['path']} ({place(s['at'])})"
        if s["mut"]:
            report(Ob(name, where, "it is a mutable static"))
        elif s["tls"]:
            report(Ob(name, where, "it is thread-local state"))
        elif not s["freeze"] or s["cells"]:
            report(Ob(name, where, f"its type {s['ty']} has interior mutability: {'; '.join(s['cells'][:2])}"))
        else:
            report(Ob(name, where))
    for t in a["adts"]:
        if generated(lib, t["at"]) or not t["pub"] or READERS.search(t["path"]):
            continue
        name, where = f"values of {t['path']} cannot change through a shared reference", f"{t['path']} ({place(t['at'])})"
        if t["cells"]:
            report(Ob(name, where, f"interior mutability: {t['cells'][0]}"))
        else:
            report(Ob(name, where))
    own = {s["path"]: s for s in a["statics"]}
    n = 0
    for f in a["fns"]:
        if generated(lib, f["at"]):
            continue
        bad = None
        for callee, resolved, crate, at, args in f["calls"]:
            n += 1
            what = effects(callee, resolved, args)
            if what is None and STATIC.match(resolved) and resolved[7:] not in own and not resolved.startswith(("static core::", "static alloc::")):
                what = "uses the state of another crate"
            if what is not None:
                bad = f"{resolved} at {place(at)} {what}"
                report(Ob(f"{f['path']} has no effects beyond its arguments", f"{f['path']} ({place(at)})", bad))
                break
        if bad is None:
            report(Ob(f"{f['path']} has no effects beyond its arguments", f"{f['path']} ({place(f['at'])})"))
    return n


@rule("C24", "inventory of every static, type and named callee of the crate (type-checked program): no mutable, thread-local or interior-mutable statics, no cells in data types, effect analysis of the whole call inventory; value equality of the opened path")
def c24(ctx, report):
    lib = Lib()
    a = lib.audit()
    n = state(lib, a, report)
    ctx.notes.append(f"{len(a['statics'])} statics, {len(a['adts'])} types, {len(a['fns'])} functions, {n} named callees")
    ioprops.files(ctx, report, {"path", "created"})
    ioprops.maps(ctx, report, {"path", "created"})
