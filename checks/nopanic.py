"""C08, static half: optimised operations contain no panic path.

Screen: the call graph of the emitted LLVM IR.  Confirmation of an edge: the harness is
compiled with the crate's release profile (fat LTO, one codegen unit) and the machine
code reachable from the operation is searched for the panic machinery."""
import os
import re
import subprocess

from lib import *
from llir import idents

NAME = re.compile(r'@(?:"[^"]+"|[\w.$]+)')
# provided methods of std's traits are std's code: whether their slicing is elided depends on inlining only
SKIP = re.compile(r"@\w+_(dbgtext|debug|iowriteall|iocopy|iowritev|iofmt|hashval|hashone|size|align)$")
# the configurations for which the project itself promises it (its CI links examples/no_panic.rs there)
PROMISED = (build.X64, build.A64)
PURE = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "_Unwind_Resume", "rust_eh_personality"}
PANIC = re.compile(r"panicking|panic_|unwrap_failed|expect_failed|_fail\b|_fail$|begin_unwind|hw_panicked|capacity_overflow|"
                   r"handle_alloc_error|len_mismatch|begin_panic|rust_panic|assert_failed")


def ir_edges(m):
    """operation -> panic functions its IR call graph reaches (harness landing pads aside)"""
    m.load()
    funcs = m.prog.funcs
    refs = {}

    def of(n):
        r = refs.get(n)
        if r is None:
            f = funcs[n]
            r = refs[n] = set()
            for l in f.lines:
                if "@" in l and not l.lstrip().startswith("#dbg"):
                    r |= set(NAME.findall(l))
        return r
    out = {}
    for e in sorted(m.sig):
        e = "@" + e
        if e not in funcs or SKIP.match(e):
            continue
        seen, todo, bad = {e}, [e], set()
        while todo:
            n = todo.pop()
            for r in of(n):
                if r in funcs:
                    if r not in seen:
                        seen.add(r)
                        todo.append(r)
                    continue
                if r in m.prog.decls and not r.startswith("@llvm.") and r[1:] not in PURE:
                    nm = "::".join(idents(r)) or r[1:]
                    if n == e or not n.startswith("@_R"):
                        # the harness's own extern "C" boundary
                        if nm.endswith("panic_cannot_unwind") or nm.endswith("panic_in_cleanup"):
                            continue
                    if PANIC.search(nm) or "noreturn" in m.prog.decls[r].mod.fattr(m.prog.decls[r]):
                        bad.add((nm, "::".join(idents(n)) or n[1:]))
        out[e[1:]] = bad
    return out


def lto(m):
    """machine code of the harness under the release profile; returns operation -> reachable panic symbols"""
    cfg = m.cfg
    d = os.path.join(build.outdir(cfg, "lto"))
    lib = os.path.join(d, "libhwharness.a")
    base = [build.RUSTC, "--edition", "2021", "--out-dir", d, "-A", "warnings", "--cap-lints", "warn"] + cfg.flags()
    if not os.path.exists(lib):
        build.run(base + ["--crate-name", "highway", "--crate-type", "rlib", "-C", "metadata=hw"] + build.feats(cfg.std) +
                  [os.path.join(build.REPO, "src", "lib.rs")])
        cmd = base + ["--crate-name", "hwharness", "--crate-type", "staticlib", "-C", "lto=fat", "-C", "metadata=hwh",
                      "--extern", "highway=%s/libhighway.rlib" % d, build.HARNESS]
        if cfg.std:
            cmd += ["--cfg", 'feature="std"']
        else:
            cmd += ["-C", "panic=abort"]
        build.run(cmd)
    mem = subprocess.run(["ar", "t", lib], stdout=subprocess.PIPE).stdout.decode().split()
    objs = [x for x in mem if x.startswith("hwharness.") or ".hwharness." in x]
    subprocess.run(["ar", "x", lib] + objs, cwd=d, check=True)
    graph, home = {}, {}
    for o in objs:
        p = subprocess.run(["readelf", "-SsrW", os.path.join(d, o)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        sec, cur = {}, None
        for l in p.stdout.decode(errors="replace").splitlines():
            x = re.match(r"\s*\[\s*(\d+)\]\s+(\S+)\s", l)
            if x:
                sec[x.group(1)] = (o, x.group(2))
                continue
            x = re.match(r"Relocation section '\.rela?(\.\S+)'", l)
            if x:
                cur = (o, x.group(1))
                continue
            x = re.match(r"\s*\d+: [0-9a-f]+\s+\d+ (\w+)\s+(\w+)\s+\w+\s+(\w+)\s+(\S+)", l)
            if x:
                if x.group(3) in sec:
                    home[x.group(4)] = sec[x.group(3)]
                continue
            x = re.match(r"[0-9a-f]{8,}\s+[0-9a-f]{8,}\s+R_\S+\s+[0-9a-f]+\s+(\S+)", l)
            if x and cur and cur[1].startswith(".text"):
                graph.setdefault(cur, set()).add(x.group(1))
    out = {}
    for e in m.sig:
        if e not in home:
            continue
        seen, todo, bad = set(), [home[e]], set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for y in graph.get(s, ()):
                nm = "::".join(idents("@" + y)) or y
                if PANIC.search(nm):
                    bad.add((nm, s[1]))
                    continue
                t = home.get(y) or ((s[0], y) if y.startswith(".text") else None)
                if t and t[1].startswith(".text"):
                    todo.append(t)
        out[e] = bad
    return out


def static(c, names):
    for m in [MACH[n] for n in names]:
        e = ir_edges(m)
        bad = {o for o, b in e.items() if b}
        c.obl += len(e)
        c.done += len(e) - len(bad)
        c.bump("operations_without_panic_edge_in_ir", len(e) - len(bad))
        if not bad:
            continue
        if m.cfg.target not in PROMISED or m.cfg.feat:
            c.inconclusive.append("%s: panic edges in the IR of %s (%s)" % (m, sorted(bad)[:6], sorted(e[min(bad)])[:2]))
            continue
        l = lto(m)
        left = {o for o in bad if l.get(o)}
        c.done += len(bad - left)
        c.bump("panic_edges_removed_by_lto", len(bad - left))
        if left:
            o = min(left)
            c.violation("no panic path in optimised code, %s" % m,
                        "linked code (release profile, fat LTO) of %s still reaches %s" %
                        (", ".join(sorted(left)), "; ".join("%s from %s" % x for x in sorted(l[o])[:4])), {},
                        "IR: %s\n" % "; ".join("%s from %s" % x for x in sorted(e[o])[:6]))
            return
