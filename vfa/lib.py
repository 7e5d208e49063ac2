"""The library as the compiler sees it: its own build flags, for audits, lints and witness programs."""
import json
import os
import shutil
import subprocess
import tempfile
from . import build


class Lib:
    """Artifacts of one `cargo check` of the library: what a direct compiler call needs."""

    def __init__(self):
        with build.lock():
            exe = build.driver()
            self.exe = exe
            env = build.client_env(exe)
            env["MIRDUMP_CRATES"] = "-"
            h = build.repo_changed(env)
            cwd = os.path.join(build.VERIF, "clients")
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-p", "osmpbf", "--message-format=json"],
                               cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0:
                raise build.BuildError("checking the library failed:\n" + r.stderr[-3000:])
            build.stamp("repo", h)
        self.rmeta, self.dirs, self.out_dir, self.features = {}, set(), None, []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                k = m["target"]["kind"]
                fs = [f for f in m["filenames"] if f.endswith(".rmeta")]
                if "lib" in k and fs and len(fs) == len(m["filenames"]):
                    self.rmeta[m["target"]["name"].replace("-", "_")] = fs[0]
                    if m["target"]["name"] == "osmpbf":
                        self.features = m.get("features", [])
                for f in m["filenames"]:
                    if f.endswith((".rmeta", ".rlib", ".so")):
                        self.dirs.add(os.path.dirname(f))
            elif m.get("reason") == "build-script-executed" and "osmpbf" in m["package_id"]:
                self.out_dir = m["out_dir"]
        if self.out_dir is None or "osmpbf" not in self.rmeta:
            raise build.BuildError("the library's artifacts were not found")
        self.env = build.base_env()
        self.env["LD_LIBRARY_PATH"] = env["LD_LIBRARY_PATH"]
        self.env["OUT_DIR"] = self.out_dir
        self.src = os.path.join(build.REPO, "src", "lib.rs")

    def paths(self):
        out = []
        for d in sorted(self.dirs):
            out += ["-L", "dependency=" + d]
        return out

    def externs(self):
        out = []
        for n in ("byteorder", "flate2", "memmap2", "protobuf", "rayon"):
            if n in self.rmeta:
                out += ["--extern", f"{n}={self.rmeta[n]}"]
        # further dependencies, if the crate gets any
        for n, p in sorted(self.rmeta.items()):
            if n not in ("byteorder", "flate2", "memmap2", "protobuf", "rayon", "osmpbf"):
                out += ["--extern", f"{n}={p}"]
        return out

    def compile(self, args, exe=None, env=None, src=None):
        """Compiles the library's own source with its dependencies; (exit code, stdout, diagnostics)"""
        tmp = tempfile.mkdtemp(prefix="vfa-")
        try:
            e = dict(self.env)
            e.update(env or {})
            cmd = ([exe] if exe else ["rustc", "+nightly"]) + [src or self.src, "--crate-name", "osmpbf", "--crate-type", "lib",
                   "--edition", edition(), "--error-format=json", "--out-dir", tmp] + self.paths() + self.externs() + args
            r = subprocess.run(cmd, cwd=build.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            return r.returncode, r.stdout, diags(r.stderr)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def features_args(self, fs=None):
        out = []
        for f in self.features if fs is None else fs:
            out += ["--cfg", f'feature="{f}"']
        return out

    def audit(self):
        tmp = tempfile.mkdtemp(prefix="vfa-")
        try:
            p = os.path.join(tmp, "audit.json")
            rc, out, ds = self.compile(["--emit=metadata"] + self.features_args(), exe=self.exe, env={"MIRDUMP_AUDIT": p})
            if rc != 0 or not os.path.exists(p):
                raise build.BuildError("auditing the library failed:\n" + text(ds)[-3000:])
            with open(p) as f:
                return json.load(f)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def witness(self, source):
        """Compiles a program against the library; (accepted, {error codes}, diagnostics)"""
        tmp = tempfile.mkdtemp(prefix="vfa-")
        try:
            p = os.path.join(tmp, "witness.rs")
            with open(p, "w") as f:
                f.write(source)
            cmd = ["rustc", "+nightly", p, "--crate-type", "lib", "--edition", "2021", "--error-format=json", "--emit=metadata",
                   "--cap-lints", "allow", "--out-dir", tmp] + self.paths() + \
                  ["--extern", "osmpbf=" + self.rmeta["osmpbf"]]
            r = subprocess.run(cmd, cwd=tmp, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            ds = [d for d in diags(r.stderr) if d.get("level") == "error" and not d["message"].startswith("aborting due")]
            return r.returncode == 0, ds
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def edition():
    with open(os.path.join(build.REPO, "Cargo.toml"), "rb") as f:
        import tomllib
        return str(tomllib.load(f)["package"].get("edition", "2015"))


def diags(s):
    out = []
    for line in s.splitlines():
        if line.startswith("{"):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


def text(ds):
    return "\n".join((d.get("rendered") or d.get("message") or "")[:400] for d in ds)
