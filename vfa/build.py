"""Builds the driver and the dumps of /repo's current source."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
PREFIX = {"walk": "w_", "io": "i_", "err": "e_", "read": "r_", "par": "p_", "len": "l_", "idx": "x_"}
SKIP = {".git", "target", "tests", "examples", "benches"}


class BuildError(Exception):
    pass


def files(top, exts=None):
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            if exts is None or f.endswith(exts):
                yield p


def digest(*tops, extra=""):
    h = hashlib.sha256(extra.encode())
    for t in tops:
        for p in ([t] if os.path.isfile(t) else files(t, (".rs", ".toml", ".proto", ".txt", ".lock"))):
            with open(p, "rb") as f:
                b = f.read()
            h.update(p.encode() + b"\0" + str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()


def run(cmd, env, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"{what} failed:\n{r.stdout[-6000:]}")
    return r.stdout


class lock:
    def __enter__(self):
        os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC"))
           or k in ("CARGO_HOME",)}
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def stamp(name, h=None):
    p = os.path.join(BUILD, "out", name + ".stamp")
    if h is None:
        try:
            with open(p) as f:
                return f.read()
        except OSError:
            return None
    with open(p, "w") as f:
        f.write(h)


def driver():
    """Path of the MIR exporter."""
    exe = os.path.join(BUILD, "driver", "release", "mirdump")
    h = digest(os.path.join(VERIF, "driver"))
    if stamp("driver") == h and os.path.exists(exe):
        return exe
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    run(["cargo", "+nightly", "build", "--release", "--offline"], env, os.path.join(VERIF, "driver"), "building the driver")
    stamp("driver", h)
    return exe


def client_env(exe):
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "clients")
    env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on"
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
    env["LD_LIBRARY_PATH"] = root + "/lib"
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["MIRDUMP_CRATES"] = "clients"
    env["MIRDUMP_RULES"] = os.path.join(VERIF, "clients", "rules.txt")
    return env


def repo_changed(env):
    """Cargo decides by time stamps; force a rebuild of the library when the content changed."""
    h = digest(REPO)
    if stamp("repo") != h:
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", "osmpbf"], cwd=os.path.join(VERIF, "clients"), env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return h


def dump(group):
    """Path of the exported program of one group of clients, for the current source of /repo."""
    with lock():
        out = os.path.join(BUILD, "out", group)
        path = os.path.join(out, "clients.json")
        h = digest(os.path.join(VERIF, "driver"), os.path.join(VERIF, "clients"), REPO, extra=group)
        if stamp("dump-" + group) == h and os.path.exists(path):
            return path
        exe = driver()
        env = client_env(exe)
        rh = repo_changed(env)
        os.makedirs(out, exist_ok=True)
        if os.path.exists(path):
            os.remove(path)
        env["MIRDUMP_OUT"] = out
        env["MIRDUMP_ROOTS"] = PREFIX[group]
        os.utime(os.path.join(VERIF, "clients", "src", "lib.rs"))
        run(["cargo", "+nightly", "check", "--offline", "--features", group], env, os.path.join(VERIF, "clients"), f"exporting the program ({group})")
        if not os.path.exists(path):
            raise BuildError("the driver wrote no program")
        stamp("repo", rh)
        stamp("dump-" + group, h)
        return path


if __name__ == "__main__":
    try:
        with lock():
            driver()
        for g in sys.argv[1:]:
            dump(g)
    except BuildError as e:
        print(e)
        sys.exit(1)
