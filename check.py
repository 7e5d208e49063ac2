#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's current source, statically."""
import json
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def known():
    """{(property, fingerprint)} of the committed findings"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                head, _, what = l[len("finding: property="):].partition(" ")
                out.append((head, what))
    return out


class Deadline(BaseException):
    pass


def late(*_):
    raise Deadline()


def quit_(rc):
    # without taking the diagrams apart
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    # what is not decided in time or space stays undecided
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("VFA_SECONDS", "780")))
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    from vfa import build, props
    from vfa.ctx import Ctx
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    f, meta = props.RULES[pid]
    obs = []
    try:
        ctx = Ctx(tier)
        f(ctx, obs.append)
    except build.BuildError as e:
        print(f"{pid}: cannot decide, the program does not build\n{e}")
        sys.exit(2)
    except (Deadline, MemoryError) as e:
        from vfa.rules import Ob
        obs.append(Ob(f"{pid}: the analysis ends", "-", undecided="out of memory" if isinstance(e, MemoryError) else "out of time"))
    signal.alarm(0)
    bad = [o for o in obs if o.detail is not None]
    und = [o for o in obs if o.detail is None and o.undecided is not None]
    listed = [w for p, w in known() if p == pid]
    found, viol = {}, []
    for o in bad:
        hit = next((w for w in listed if o.key() == w), None)
        if hit is not None:
            found[hit] = o
        else:
            viol.append(o)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "obligations": len(obs), "discharged": len([o for o in obs if o.ok]),
            "checker_cmd": f"python3 check.py {pid}",
            "trusted_base": meta["trusted"],
            "rule": meta["rule"],
            "explanation": meta["rule"],
            "undecided": [f"{o.name} at {o.where}: {o.undecided}" for o in und][:50],
            "known_findings": sorted(found),
            "samples": sorted({f"{o.name} [{o.where}]" for o in obs if o.ok})[:60],
            "analysed": ctx.summary(),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for w in sorted(found):
        print(f"KNOWN-FINDING: property={pid} {w}")
    for o in und[:10]:
        print(f"UNDECIDED {pid}: {o.name} at {o.where}: {o.undecided}"[:600])
    print(f"{pid}: {len(obs)} obligations, {len(obs) - len(bad) - len(und)} discharged, {len(und)} undecided, "
          f"{len(viol)} violated, {time.time() - t0:.1f} s")
    if viol:
        d = os.path.join(VERIF, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".txt")
        with open(p, "w") as fh:
            for o in viol:
                fh.write(f"{o.name}\n  at {o.where}\n  {o.detail}\n  fingerprint: {o.key()}\n\n")
        for o in viol[:5]:
            print(f"  {o.name}\n    at {o.where}\n    {o.detail}"[:900])
        print(f"VIOLATION property={pid} replay={p}")
        quit_(1)
    quit_(0)


if __name__ == "__main__":
    main()
