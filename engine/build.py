"""Builds of /repo's current sources: LLVM IR for the symbolic executor and native
artefacts for replay.  Every artefact is keyed by a digest of the sources and the
command line, so one check never sees another tree's output."""
import contextlib
import fcntl
import hashlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HW_REPO", "/repo")
OUT = os.environ.get("HW_BUILD", os.path.join(ROOT, ".build"))
HARNESS = os.path.join(ROOT, "harness", "src", "lib.rs")
RUSTC = "rustc"
TC = os.environ.get("HW_TOOLCHAIN", "1.99.1")


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_dig = {}


def src_digest():
    k = "src"
    if k not in _dig:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(os.path.join(REPO, "src")):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + _read(p) + b"\0")
        for f in ("Cargo.toml", "README.md"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                h.update(_read(p))
        h.update(_read(HARNESS))
        _dig[k] = h.hexdigest()
    return _dig[k]


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["RUSTC_BOOTSTRAP"] = "1"
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, timeout=600, cwd=None, check=True, e=None, inp=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                       env=e or env(), input=inp)
    if check and p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p


def edition():
    for l in _read(os.path.join(REPO, "Cargo.toml")).decode().splitlines():
        if l.strip().startswith("edition"):
            return l.split('"')[1]
    return "2021"


X64 = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"
A64 = "aarch64-unknown-linux-gnu"
WASM = "wasm32-unknown-unknown"
PPC64 = "powerpc64-unknown-linux-gnu"
PPC = "powerpc-unknown-linux-gnu"


class Cfg:
    """one build configuration of the crate"""

    def __init__(self, target=X64, profile="release", std=True, feat="", cpu=""):
        self.target = target
        self.profile = profile
        self.std = std
        self.feat = feat
        self.cpu = cpu

    def name(self):
        t = self.target.split("-")[0]
        return "%s-%s-%s%s%s" % (t, self.profile, "std" if self.std else "nostd",
                                 "-" + self.feat.replace("+", "").replace(",", "_") if self.feat else "",
                                 "-" + self.cpu if self.cpu else "")

    def flags(self):
        f = ["--target", self.target]
        if self.profile == "release":
            f += ["-C", "opt-level=3", "-C", "codegen-units=1"]
        elif self.profile == "dev":
            f += ["-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on",
                  "-C", "codegen-units=1", "-Z", "share-generics=n"]
        elif self.profile == "o1":
            f += ["-C", "opt-level=1", "-C", "debug-assertions=off", "-C", "codegen-units=1", "-Z",
                  "share-generics=n"]
        elif self.profile == "relchk":
            f += ["-C", "opt-level=3", "-C", "debug-assertions=on", "-C", "overflow-checks=on",
                  "-C", "codegen-units=1"]
        else:
            raise ValueError(self.profile)
        feat = self.feat
        if self.target == WASM and "simd128" not in feat:
            pass
        if feat:
            f += ["-C", "target-feature=" + feat]
        if self.cpu:
            f += ["-C", "target-cpu=" + self.cpu]
        if self.target in (PPC64, PPC):
            f += ["-C", "panic=abort"]
            sr = sysroot(self.target)
            f += ["--sysroot", sr]
        return f

    def __repr__(self):
        return self.name()


def cargo_features():
    """the crate's features switched on by `default`, per Cargo.toml"""
    out = []
    sec = None
    table = {}
    for l in _read(os.path.join(REPO, "Cargo.toml")).decode().splitlines():
        l = l.split("#")[0].strip()
        if l.startswith("["):
            sec = l
        elif sec == "[features]" and "=" in l:
            k, v = l.split("=", 1)
            table[k.strip()] = [x.strip().strip('"') for x in v.strip().strip("[]").split(",") if x.strip()]
    return table


def feats(std):
    t = cargo_features()
    out = []
    todo = ["default"] if std else []
    while todo:
        k = todo.pop()
        if k in out:
            continue
        out.append(k)
        todo += t.get(k, [])
    if std and "std" not in out:
        out.append("std")
    r = []
    for k in out:
        r += ["--cfg", 'feature="%s"' % k]
    return r


def key_of(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(str(p).encode() + b"\0")
    return h.hexdigest()[:16]


def outdir(cfg, extra=""):
    d = os.path.join(OUT, "%s-%s" % (cfg.name(), key_of(src_digest(), " ".join(cfg.flags()), extra)))
    os.makedirs(d, exist_ok=True)
    return d


def build(cfg, native=False):
    """compile the crate and the harness; returns the output directory
    (highway.ll, hwharness.ll and, if native, libhwharness.a)"""
    d = outdir(cfg)
    mark = os.path.join(d, "ok.native" if native else "ok.ir")
    if os.path.exists(mark) or os.path.exists(os.path.join(d, "ok.native")):
        return d
    with locked(d):
        if os.path.exists(mark):
            return d
        emit = "llvm-ir,link" if native else "llvm-ir,metadata"
        base = [RUSTC, "--edition", edition(), "-C", "metadata=hw", "--out-dir", d, "--cap-lints", "warn",
                "-A", "warnings"] + cfg.flags()
        run(base + ["--crate-name", "highway", "--crate-type", "rlib", "--emit", emit] + feats(cfg.std) +
            [os.path.join(REPO, "src", "lib.rs")])
        ct = "staticlib" if native else "rlib"
        if cfg.target == WASM and native:
            ct = "cdylib"
        ext = "libhighway.rlib" if native else "libhighway.rmeta"
        h = [RUSTC, "--edition", "2021", "-C", "metadata=hwh", "--out-dir", d, "-A", "warnings"] + cfg.flags() + [
            "--crate-name", "hwharness", "--crate-type", ct, "--extern", "highway=%s/%s" % (d, ext)]
        if cfg.std:
            h += ["--cfg", 'feature="std"']
        h += ["--emit", emit if native else "llvm-ir,metadata", HARNESS]
        if not cfg.std and native:
            h += ["-C", "panic=abort"]
        run(h)
        open(mark, "w").close()
    return d


def sysroot(target):
    """a sysroot with core alone, built from rust-src for a target without a prebuilt one"""
    d = os.path.join(OUT, "sysroot-" + target)
    lib = os.path.join(d, "lib", "rustlib", target, "lib")
    mark = os.path.join(d, "ok")
    with locked(d):
        if os.path.exists(mark):
            return d
        os.makedirs(lib, exist_ok=True)
        src = None
        for tc in (TC, "stable", "nightly"):
            p = run([RUSTC, "+" + tc, "--print", "sysroot"], e=dict(os.environ), check=False).stdout.decode().strip()
            x = os.path.join(p, "lib/rustlib/src/rust/library/core/src/lib.rs")
            v = run([RUSTC, "+" + tc, "--version"], e=dict(os.environ), check=False).stdout
            if p and os.path.exists(x) and v == run([RUSTC, "+" + TC, "--version"], e=dict(os.environ), check=False).stdout:
                src = x
                break
        if src is None:
            raise BuildError("no rust-src for " + TC)
        base = [RUSTC, "--sysroot", d, "--target", target, "--crate-type", "rlib", "-C", "panic=abort", "-C", "opt-level=3",
                "--emit", "metadata,link", "--cap-lints", "allow", "--out-dir", lib]
        run(base + ["--crate-name", "core", "--edition", "2024", src])
        # libgcc and the C library provide what compiler_builtins would
        cb = os.path.join(d, "cb.rs")
        with open(cb, "w") as f:
            f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
        run(base + ["--crate-name", "compiler_builtins", "--edition", "2021", cb])
        open(mark, "w").close()
    return d


@contextlib.contextmanager
def locked(path):
    """one process at a time builds into a directory"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, key_of(path) + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


if __name__ == "__main__":
    import time
    for c in [Cfg(), Cfg(profile="dev"), Cfg(std=False), Cfg(std=False, profile="dev"), Cfg(target=I686),
              Cfg(target=A64), Cfg(target=WASM, feat="+simd128"), Cfg(feat="+avx2"), Cfg(feat="+sse4.1")]:
        t = time.time()
        try:
            d = build(c)
            print(c, d, "%.1f" % (time.time() - t))
        except BuildError as e:
            print(c, "FAILED", e)
