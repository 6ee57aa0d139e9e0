"""Native replay: the recorded trace of a scenario, with concrete inputs, run against the
real code (natively, under qemu-user for foreign targets, in node for wasm)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile

import build
from build import X64, I686, A64, WASM, PPC64, PPC
from sigs import table
from terms import *

HERE = os.path.dirname(os.path.abspath(__file__))
CT = {"p": "void*", "z": "size_t", "b": "uint8_t", "h": "uint16_t", "w": "uint32_t", "q": "uint64_t"}
CC = {X64: ["gcc"], I686: ["i686-linux-gnu-gcc"], A64: ["aarch64-linux-gnu-gcc"],
      PPC64: ["powerpc64-linux-gnu-gcc"], 
      PPC: ["powerpc64-linux-gnu-gcc", "-m32", "-nostdlib", "-ffreestanding", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]}
RUN = {X64: [], I686: ["qemu-i386"], A64: ["qemu-aarch64"], PPC64: ["qemu-ppc64"], PPC: ["qemu-ppc"]}


class ReplayError(Exception):
    pass


def gen_c(sig):
    names = sorted(sig)
    sigs = sorted(set(sig.values()))
    o = ['#include "driver.h"']
    for n in names:
        a, _, r = sig[n].partition(":")
        o.append("extern %s %s(%s);" % (CT[r] if r else "void", n, ", ".join(CT[c] for c in a) or "void"))
    o.append("const char *fn_names[] = {%s, 0};" % ", ".join('"%s"' % n for n in names))
    o.append("uint64_t fn_call(int i, uint64_t *a) {\n  switch (i) {")
    for i, n in enumerate(names):
        a, _, r = sig[n].partition(":")
        args = ", ".join("(%s)%sa[%d]" % (CT[c], "(uintptr_t)" if c == "p" else "", k) for k, c in enumerate(a))
        if r:
            o.append("  case %d: return %s(%s);" % (i, n, args))
        else:
            o.append("  case %d: %s(%s); return 0;" % (i, n, args))
    o.append("  }\n  return 0;\n}")
    return "\n".join(o) + "\n"


def driver_key():
    rd = os.path.join(os.path.dirname(HERE), "replay")
    return build.key_of(*[open(os.path.join(rd, f)).read() for f in ("driver.c", "driver.h", "mini.c")],
                        open(os.path.join(HERE, "sigs.py")).read())


def native(m):
    """build the replay program of a machine's configuration; returns its path"""
    if m.native:
        return m.native
    cfg = m.cfg
    d = build.build(cfg, native=True)
    if cfg.target == WASM:
        m.native = os.path.join(d, "hwharness.wasm")
        return m.native
    with build.locked(d + "/driver"):
        return link(m, cfg, d)


def link(m, cfg, d):
    exe = os.path.join(d, "driver-" + driver_key())
    if not os.path.exists(exe):
        m.load()
        # only entry points the configuration really has
        sig = {k: v for k, v in m.sig.items() if m.has(k)}
        t = exe + ".%d" % os.getpid()
        with open(t + ".c", "w") as f:
            f.write(gen_c(sig))
        mini = cfg.target == PPC
        cmd = CC[cfg.target] + ["-O1", "-g0", "-w", "-I", os.path.join(os.path.dirname(HERE), "replay"), "-o", t,
                                os.path.join(os.path.dirname(HERE), "replay", "mini.c" if mini else "driver.c"), t + ".c",
                                os.path.join(d, "libhwharness.a")]
        cmd += [] if mini else ["-lpthread", "-ldl", "-lm"]
        if cfg.target in (PPC, PPC64):
            # code of core that nothing calls refers to compiler_builtins
            cmd += ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all"]
        if not cfg.std:
            cmd.insert(1, "-DNOSTD")
        if cfg.target != X64:
            cmd.insert(1, "-static")
        build.run(cmd)
        os.rename(t, exe)
    m.native = exe
    return exe


def native_asan(m, san="address"):
    """the replay program with AddressSanitizer in the crate's code (x86_64); san="thread":
    with ThreadSanitizer's instrumentation, whose hooks the driver uses to preempt"""
    cfg = m.cfg
    d = build.outdir(cfg, "asan" if san == "address" else "tsan")
    exe = os.path.join(d, "driver-" + driver_key())
    native(m)
    with build.locked(d):
        return link_san(m, cfg, d, exe, san)


def link_san(m, cfg, d, exe, san):
    if os.path.exists(exe):
        return exe
    base = [build.RUSTC, "--edition", "2021", "--out-dir", d, "-A", "warnings", "--cap-lints", "warn", "-Z",
            "sanitizer=" + san, "-C", "unsafe-allow-abi-mismatch=sanitizer"] + cfg.flags()
    build.run(base + ["--crate-name", "highway", "--crate-type", "rlib", "-C", "metadata=hw"] + build.feats(cfg.std) +
              [os.path.join(build.REPO, "src", "lib.rs")])
    build.run(base + ["--crate-name", "hwharness", "--crate-type", "staticlib", "-C", "metadata=hwh", "--cfg", 'feature="std"',
                      "--extern", "highway=%s/libhighway.rlib" % d, build.HARNESS])
    if san == "thread":
        t = exe + ".%d" % os.getpid()
        with open(t + ".c", "w") as f:
            f.write(gen_c({k: v for k, v in m.sig.items() if m.has(k)}))
        build.run(["gcc", "-DPREEMPT", "-O1", "-g0", "-w", "-I", os.path.join(os.path.dirname(HERE), "replay"), "-o", t,
                   os.path.join(os.path.dirname(HERE), "replay", "driver.c"), t + ".c", os.path.join(d, "libhwharness.a"),
                   "-lpthread", "-ldl", "-lm"])
        os.rename(t, exe)
        return exe
    sr = build.run([build.RUSTC, "--print", "sysroot"]).stdout.decode().strip()
    import glob
    rt_ = glob.glob("%s/lib/rustlib/%s/lib/librustc-*_rt.asan.a" % (sr, cfg.target))[0]
    t = exe + ".%d" % os.getpid()
    with open(t + ".c", "w") as f:
        f.write(gen_c({k: v for k, v in m.sig.items() if m.has(k)}))
    build.run(["gcc", "-DNOALLOC", "-O1", "-g0", "-w", "-I", os.path.join(os.path.dirname(HERE), "replay"), "-o", t,
               os.path.join(os.path.dirname(HERE), "replay", "driver.c"), t + ".c", os.path.join(d, "libhwharness.a"),
               "-Wl,--whole-archive", rt_, "-Wl,--no-whole-archive", "-rdynamic", "-lpthread", "-ldl", "-lm", "-lrt"])
    os.rename(t, exe)
    return exe


def replay_checked(machines, ops, env, bases, how):
    """rerun under AddressSanitizer ("asan") or valgrind ("memcheck"); returns (report or None, text)"""
    for (label, lines, specs) in concretise(ops, env, bases):
        m = machines[label]
        if m.cfg.target != X64 or not m.cfg.std:
            continue
        text = "".join(("i %d 0 %s" % (l[1], l[3].hex()) if type(l) is tuple else l) + "\n" for l in lines)
        if how == "asan":
            cmd, e = [native_asan(m)], dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77")
        else:
            cmd, e = ["valgrind", "-q", "--error-exitcode=77", native(m)], None
        try:
            p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=e)
        except subprocess.TimeoutExpired:
            continue
        err = p.stderr.decode(errors="replace")
        if p.returncode == 77 and ("AddressSanitizer" in err or "uninit" in err or "Invalid" in err):
            return err.strip()[:1500], text
    return None, ""


def val(x, env, order_cache=None):
    if type(x) is int:
        return x
    if x is UNDEF:
        return 0
    return evaluate([x], env)[0]


def concretise(ops, env, bases=None):
    """trace ops -> segments [(machine label, [text lines], [observation specs])]"""
    segs = []
    cur = None
    roots = []
    for op in ops:
        if op[0] in ("init", "initw"):
            roots += [b for b in op[2] if type(b) is T]
        elif op[0] == "call":
            roots += [a[1] for a in op[2] if a[0] == "val" and type(a[1]) is T]
        elif op[0] == "obj" and bases:
            pass
    vals = eval_order(cone(roots), env)

    def v(x):
        return x if type(x) is int else (0 if x is UNDEF else vals[x.id])
    for op in ops:
        k = op[0]
        if k == "use":
            cur = (op[1], [], [])
            segs.append(cur)
        elif k == "obj":
            _, i, size, align, name, place, o = op
            mod = 0
            if o.base is not None or any(b[0] is o for b in (bases or {}).values()):
                for vn, (q, _) in (bases or {}).items():
                    if q is o:
                        kk = o.align.bit_length() - 1
                        mod = (env.get(vn, 0) << kk) & 63
            cur[1].append("o %d %d %d %d %d" % (i, size if type(size) is int else v(size), align, place, mod))
        elif k == "init":
            bs = bytes(v(b) for b in op[2])
            if op[3]:
                cur[1].append(("src", op[1], op[3], bs))
            elif bs:
                cur[1].append("i %d 0 %s" % (op[1], bs.hex()))
        elif k == "initw":
            cur[1].append("w %d %d %s" % (op[1], op[3], " ".join("%x" % v(b) for b in op[2])))
        elif k == "call":
            args = ["@%d+%d" % (a[1], a[2]) if a[0] == "ref" else str(v(a[1])) for a in op[2]]
            cur[1].append("c %s %d %s" % (op[1], op[3], " ".join(args)))
        elif k == "read":
            _, label, i, off, n, word = op
            cur[1].append("d %d %d %d %d" % (i, off, n, word))
            cur[2].append((label, "read", word))
        elif k == "ret":
            cur[1].append("r %d" % op[2])
            cur[2].append((op[1], "ret", 0))
        elif k == "lit":
            cur[1].append(op[1])
            if len(op) > 2:
                cur[2].append((op[2], "lit", 0))
    return segs


def run_text(m, text, cpu=None, timeout=60, fill=None, exe=None):
    """run one segment; returns (rc, [output lines], stderr)"""
    exe = exe or native(m)
    t = m.cfg.target
    if fill is not None:
        text = "F %d\n" % fill + text
    if t == WASM:
        sig = {k: v for k, v in m.sig.items() if m.has(k)}
        cmd = ["node", os.path.join(os.path.dirname(HERE), "replay", "driver.js"), exe, json.dumps(sig)]
    else:
        cmd = RUN[t] + [exe]
        if cpu:
            cmd = ["qemu-x86_64", "-cpu", cpu, exe]
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return -999, [], "timeout"
    return p.returncode, p.stdout.decode(errors="replace").splitlines(), p.stderr.decode(errors="replace")


def repeat(machines, ops, env, bases, times, cpu=None):
    """run a trace of one machine `times` times in one process; (number of the first repetition whose
    observations differ from the first one's or None, the two lists of lines, text)"""
    segs = concretise(ops, env, bases)
    m = machines[segs[0][0]]
    if any(machines[g[0]] is not m for g in segs):
        raise ReplayError("several machines")
    lines = [l for g in segs for l in g[1]]
    if any(type(l) is tuple for l in lines):
        raise ReplayError("inputs from outputs")
    objs = [l for l in lines if l[0] == "o"]
    rest = "\n".join(l for l in lines if l[0] != "o") + "\n"
    n = sum(len(g[2]) for g in segs)
    text = "\n".join(objs) + "\n" + rest * times
    rc, ls, err = run_text(m, text, cpu if m.cfg.target == X64 and not m.cfg.feat and not m.cfg.cpu else None, fill=0xA5,
                           timeout=120)
    ls = [l for l in ls if l.startswith("=")]
    short = "# repeated %d times in one process, %s\n%s" % (times, m.label, "\n".join(objs) + "\n" + rest)
    for i in range(times):
        if ls[i * n:i * n + n] != ls[:n]:
            return i, ls[:n], ls[i * n:i * n + n], short
    return None, None, None, short


def replay(machines, ops, env, bases=None, cpu=None, fill=None, preempt=None):
    """returns (obs: label -> [ints], end: None | (kind, info), text)"""
    segs = concretise(ops, env, bases)
    obs = {}
    texts = []
    for (label, lines, specs) in segs:
        m = machines[label]
        out = []
        for l in lines:
            if type(l) is tuple:
                bs = l[3]
                if l[2] in obs:
                    ow = obs[l[2]]
                    bs = bytes(ow)
                if bs:
                    l = "i %d 0 %s" % (l[1], bs.hex())
                else:
                    continue
            out.append(l)
        if preempt is not None:
            out = ["Y %d" % preempt if l[:2] == "Y " else l for l in out]
        text = "\n".join(out) + "\n"
        texts.append("# %s\n%s" % (label, text))
        rc, ls, err = run_text(m, text, cpu if m.cfg.target == X64 and not m.cfg.feat and not m.cfg.cpu else None,
                               fill=fill, timeout=60 if preempt is None else 5,
                               exe=native_asan(m, "thread") if preempt is not None else None)
        ls = [l for l in ls if l.startswith("=")]
        for (lab, kind, word), l in zip(specs, ls):
            f = l[1:].split()
            obs[lab] = [int(x, 16) for x in f] if kind != "lit" else f
        if rc != 0:
            kind = "panic" if "panicked" in err or rc in (101,) else "crash"
            return obs, (kind, "exit status %d: %s" % (rc, err.strip()[-300:])), "".join(texts)
    return obs, None, "".join(texts)
