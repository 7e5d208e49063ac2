"""runseed.py [ids…]: applies each planted change to /repo, runs its property's check (or all with ALL=1), undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
man = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
for i in ids:
    d = os.path.join(V, "seeded", i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, stdout=subprocess.PIPE).stdout
    r = subprocess.run(f"git -C /repo apply {d}/patch.diff", shell=True)
    if r.returncode:
        print(i, "does not apply"); continue
    try:
        for c in (man if os.environ.get("ALL") else [p]):
            if c not in man:
                print(i, p, "no check"); continue
            r = subprocess.run(["python3", "check.py", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res = {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERROR %d" % r.returncode)
            if c == p or r.returncode:
                print(i, c, res, flush=True)
                if os.environ.get("SHOW") or r.returncode not in (0, 1) or (r.returncode == 0 and "UNDECIDED" in r.stdout):
                    print(r.stdout[-1500:])
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
