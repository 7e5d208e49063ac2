"""mkseed.py [ids…]: writes seeded/<id>/ from tools/seeds/*.py and confirms each in a scratch copy of /repo."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedscratch"
LOCK = "/repo/Cargo.lock"


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", **env)
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            out[s["id"]] = s
    return out


def main():
    want = sys.argv[1:]
    all_ = seeds()
    ids = want or [i for i in all_ if not os.path.exists(os.path.join(V, "seeded", i, "patch.diff"))]
    if not os.path.exists(SC):
        shutil.copytree("/repo", SC, symlinks=True)
    else:
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SC)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
    for i in ids:
        s = all_[i]
        d = os.path.join(V, "seeded", i)
        sh("git checkout -q -- .", SC)
        for path, old, new in s["edits"]:
            p = os.path.join(SC, path)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(i, "edit does not match once:", n, old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        else:
            patch = sh("git diff", SC).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            if "demo" in s:
                open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
            script = s.get("script", "demo.sh")
            if script in ("demo.sh", "accept.sh"):
                shutil.copy(os.path.join(V, "tools/seeds/pb.rs"), d)
            shutil.copy(os.path.join(V, "tools/seeds", script), os.path.join(d, "demo.sh"))
            for n, t in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
            shutil.copy(LOCK, os.path.join(d, "lock.txt"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            t = sh("OSMPBF_BENCH_FILE=$PWD/tests/test.osm.pbf cargo test --workspace --offline --no-fail-fast 2>&1 | grep -E '^test result|^error|FAILED|failed' ", SC, CARGO_TARGET_DIR=SC + "/target")
            ok = "error" not in t.stdout and "FAILED" not in t.stdout and "test result: ok" in t.stdout
            a = sh(f"bash {d}/demo.sh", SC)
            sh("git checkout -q -- .", SC)
            b = sh(f"bash {d}/demo.sh", SC)
            good = ok and a.returncode != 0 and a.returncode != 3 and b.returncode == 0
            print(i, "OK" if good else "BAD", "tests", ok, "demo patched", a.returncode, "clean", b.returncode, flush=True)
            if not good:
                print(t.stdout[-800:], a.stdout[-800:], b.stdout[-800:])
                open(os.path.join(d, "BAD"), "w").write("")
            elif os.path.exists(os.path.join(d, "BAD")):
                os.remove(os.path.join(d, "BAD"))


main()
