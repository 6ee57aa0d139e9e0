"""C18: no operation allocates on the heap; without std the crate needs no allocator."""
import os
import re
from safety import *
import nopanic
import subprocess

ALLOC = re.compile(r"__rust_alloc|__rust_realloc|__rg_alloc|__rdl_alloc|__rust_no_alloc_shim|exchange_malloc|"
                   r"handle_alloc_error|capacity_overflow|finish_grow|grow_one|reserve")
LIBC = {"malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign", "reallocarray", "strdup", "mmap", "brk"}


def free(c, name, sc, maxpaths=400):
    """no path of the scenario allocates; one that does is replayed natively under a counting allocator"""
    ps = c.run(sc, "A.", maxpaths)
    for p in ps:
        c.obl += 1
        if p.allocs or any(e[0] == "alloc" for e in p.events):
            at = [e[1] for e in p.events if e[0] == "alloc"][:1]
            if count(c, name, p, at):
                return ps
            c.inconclusive.append("%s: symbolic path allocates (%s), not reproduced natively" % (name, at))
        elif p.end is not None:
            c.inconclusive.append("%s: path ends with %s (%s)" % (name, p.end[0], p.end[1][:200]))
        else:
            c.done += 1
            c.validate(p, p)
    if not ps:
        c.inconclusive.append("%s: no feasible path" % name)
    return ps


def count(c, name, p, at):
    env = assignment(c, p)
    if env is None:
        return False
    for pl in (0, 1):
        ops = [op[:5] + (pl,) + op[6:] if op[0] == "obj" and pl else op for op in p.ops] + [("lit", "A", "allocs")]
        try:
            oa, ea, ta = rp.replay(MACH, ops, env, p.bases, cpu_arg(env), 0xA5)
        except (rp.ReplayError, build.BuildError, OSError) as e:
            c.inconclusive.append("%s: replay failed: %s" % (name, str(e)[:200]))
            return False
        n = oa.get("allocs")
        if ea is None and n and int(n[0], 16) > 0:
            c.violation(name, "%d heap allocation(s) inside the calls (symbolic path: %s)" % (int(n[0], 16), at), env, ta)
            return True
    return False


def fresh(c, m, k, n, how, ops=everything):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        h = s.default(k) if how == "default" else s.new(k, K)
        s.append(k, h, D)
        ops(s, k, h, D)
    free(c, "%s %s: %s, append(%d), every operation" % (m, k, how, n), sc)


def filled(c, m, k, f, n, adapter="append"):
    """a restored hasher with f pending bytes (None: a count above 31) takes n bytes"""
    C, D = ckpt_over() if f is None else ckpt_bytes(f), bvars(n)

    def sc(s):
        s.use(m)
        if f is None:
            assume_over(C)
        h = s.restore(k, C)
        s.append(k, h, D, adapter)
        light(s, k, h, D[:5])
    free(c, "%s %s: restore(count %s), %s(%d)" % (m, k, f, adapter, n), sc)


def wide(c, m, k, f, n):
    """every operation that takes a byte slice, on n bytes with f pending"""
    K, D = kd(n)

    def sc(s):
        s.use(m)
        h = s.new(k, K)
        s.append(k, h, D[:f])
        for w in ALLW:
            s.oneshot(k, h, D, w)
        d = s.data(D)
        for how in ("append", "hwrite", "iowrite", "iowriteall"):
            if how == "append" or s.m.has(k + "_" + how):
                g = s.clone(k, h)
                s.appendref(k, g, d, n, how)
        if s.m.has(k + "_iowritev"):
            o = s.raw(8, 8, "n")
            s.call(k + "_iowritev", h, d, n, d, min(n, 7), o)
        if s.m.has(k + "_hashval"):
            s.call(k + "_hashval", h, var("hv", 32), d, n)
        s.fin(k, h, 64)
    free(c, "%s %s: every byte-taking operation, %d bytes, %d pending" % (m, k, n, f), sc)


def debug(c, m, k, f, alt):
    def sc(s):
        s.use(m)
        h = s.new(k, kvars())
        s.append(k, h, bvars(f))
        s.debug(k, h, alt, flags=alt == 2)
    free(c, "%s %s: Debug with %d pending" % (m, k, f), sc)


def builder(c, m, n):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        for how in ("b_new", "b_default"):
            b = s.builder()
            if how == "b_new":
                s.call(how, s.key(K), b)
            else:
                s.call(how, b)
            for _ in (0, 1):
                h = s.hasher("d")
                s.call("b_build", b, h)
                s.append("d", h, D, "hwrite")
                s.finish("d", h, how)
            o = s.raw(8, 8, "o")
            s.call("b_hashone", b, var("hv", 32), s.data(D), n, o)
        for k in "sa":
            if s.m.has(k + "_trynew"):
                h = s.hasher(k)
                s.call(k + "_trynew", s.key(K), h)
                h = s.hasher(k)
                s.call(k + "_tryrestore", s.data(ckpt_bytes(7), 1, "ckpt"), h)
    free(c, "%s: builder and probing constructors, %d bytes" % (m, n), sc)


def static(c, names):
    """whatever the lengths and histories: the IR call graph of every operation reaches no allocator"""
    for m in [MACH[n] for n in names]:
        e = reach(m)
        bad = {o: b for o, b in e.items() if b}
        c.obl += len(e)
        c.done += len(e) - len(bad)
        c.bump("operations_without_allocator_edge_in_ir", len(e) - len(bad))
        if bad:
            o = min(bad)
            c.inconclusive.append("%s: the IR of %d operations mentions an allocator (%s: %s); decided only within the bounds" % (
                m, len(bad), o, sorted(bad[o])[:2]))


def reach(m):
    m.load()
    funcs = m.prog.funcs
    refs = {}
    out = {}
    for e in sorted(m.sig):
        e = "@" + e
        if e not in funcs or re.search(r"_(dbgtext|size|align)$", e):
            continue
        seen, todo, bad = {e}, [e], set()
        while todo:
            n = todo.pop()
            r = refs.get(n)
            if r is None:
                r = refs[n] = set()
                for l in funcs[n].lines:
                    if "@" in l and not l.lstrip().startswith("#dbg"):
                        r |= set(nopanic.NAME.findall(l))
            for y in r:
                if y in funcs:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
                elif y in m.prog.decls and not y.startswith("@llvm."):
                    ids = nopanic.idents(y)
                    if y[1:] in LIBC or ALLOC.search(y) or (ids and ids[0] == "alloc"):
                        bad.add(("::".join(ids) or y[1:], "::".join(nopanic.idents(n)) or n[1:]))
        out[e[1:]] = bad
    return out


def noalloc(c, targets):
    """the no_std library links where no allocator exists"""
    for t in targets:
        cfg = t.cfg
        c.obl += 1
        try:
            build.build(cfg, native=True)
        except build.BuildError as e:
            if "no global memory allocator" in str(e) or "global_alloc" in str(e) or "alloc_error_handler" in str(e):
                c.violation("%s: no_std build needs an allocator" % t,
                            "linking the no_std library without a global allocator: " + str(e)[-400:], {}, str(e))
                return
            c.inconclusive.append("%s: does not link: %s" % (t, str(e)[-300:]))
            continue
        d = build.outdir(cfg)
        o = subprocess.run(["nm", "-A", os.path.join(d, "libhighway.rlib")], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
        bad = [l for l in o.splitlines() if " U " in l and (ALLOC.search(l) or l.split()[-1] in LIBC)]
        if bad:
            c.inconclusive.append("%s: the no_std rlib refers to %s" % (t, bad[:2]))
            continue
        c.done += 1


def main(k):
    q = k.tier == "quick"
    use_cpu()
    x, xd, ns, n, w = machine(), machine(profile="dev"), machine(std=False), neon(), wasm()
    nsd, nns = machine(std=False, profile="dev"), machine(build.A64, std=False)
    ms = [x, xd, ns, n, w, machine(feat="+avx2"), machine(feat="+sse4.1"), nns, nsd] + ([] if q else [
        machine(build.I686), neon("dev"), wasm("dev"), machine(profile="relchk"), machine(std=False, feat="+avx2"),
        machine(build.I686, std=False)])
    stat = list(dict.fromkeys(ms + [machine(std=False, feat="+avx2"), machine(std=False, feat="+sse4.1"), machine(build.I686)]))
    prepare(stat, [x, xd, n, w, ns])
    for m in stat:
        k.task("allocator edges, %s" % m, static, [m.label])
    k.task("no allocator needed", noalloc, [m for m in (ns, nsd)])
    for m in ms:
        lens = crit([m], [0, 1, 31, 32, 33, 64, 128, 300] if q else list(range(0, 130)) + [300, 1024, 4096],
                    hi=70000)
        lens = [y for y in lens if y <= (5000 if q else 70000)]
        for kd in m.kinds:
            full = not q or m in (x, xd, n, w)
            if not full and kd in "sa" and not m.cfg.feat:
                continue
            it = [(m, kd, y, "new" if i % 2 else "default", everything) for i, y in enumerate((0, 5, 32, 33) if full else (5, 33))]
            for g in chunks(it, 6):
                k.task("fresh %s %s" % (m, kd), batch, fresh, g)
            it = [(m, kd, f, y) for i, y in enumerate(lens) for f in ((0, 5, 31) if not q and y < 2000 else (0, 5) if y < 400 and full
                                                            else ((0, 5)[i % 2],)) if y >= f]
            small = [a for a in it if a[3] <= 600]
            for g in chunks(small, 8):
                k.task("bytes %s %s %s" % (m, kd, [a[3] for a in g][:4]), batch, wide, g)
            for a in it:
                if a[3] > 600:
                    k.task("bytes %s %s %d" % (m, kd, a[3]), batch, wide, [a])
            fs = list(range(0, 32)) + [None] if full and kd != "d" or not q else [0, 5, 31, None]
            it = []
            for f in fs:
                b = 31 if f is None else f
                it += [(m, kd, f, y) for y in ((0, 32 - b, 40) if not q else ((32 - b) if b % 2 else 40,))]
                if m.sig.get(kd + "_hwrite") and b % 4 == 0:
                    it.append((m, kd, f, 35, "hwrite"))
                if m.sig.get(kd + "_iowrite") and b % 4 == 1:
                    it.append((m, kd, f, 35, "iowrite"))
            for g in chunks(it, 12):
                k.task("restored %s %s" % (m, kd), batch, filled, g)
            k.task("debug %s %s" % (m, kd), batch, debug, [(m, kd, f, alt) for f in (0, 7, 31) for alt in (0, 1, 2)])
        k.task("builder %s" % m, batch, builder, [(m, y) for y in (0, 1, 7, 31, 32, 33, 70)])
    k.bounds = {"configurations": [str(m) for m in ms], "lengths": "0..33, 64, 128, 300 and every length constant of the code "
                "up to 5000 (quick) / 0..129 and up to 70000 (thorough)", "fills": "0..31 and counts above",
                "alignment": "symbolic (12 low address bits)", "CPU features": "all valuations",
                "unbounded": "the call graph of every operation reaches no allocator, whatever the lengths"}
    k.explanation = ("Every public operation is executed symbolically; an obligation per path: no allocator call was made.  A "
                     "path that allocates is solved for inputs and replayed under a counting malloc.  The call-graph "
                     "obligation covers all lengths; the no_std builds are linked without any allocator.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1", "the text sink itself does not allocate"]
