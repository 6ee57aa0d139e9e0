"""C17: the portable hasher is byte-order and word-size neutral."""
from safety import *


def ops(c, ms, sizes, how="append", start=None, default=False):
    """the same calls on every target: all results and the checkpoint bytes"""
    K, D = kd(sum(sizes))
    C = None if start is None else ckpt_over() if start == "over" else ckpt_bytes(start)

    def mk(m, k):
        def sc(s):
            s.use(m)
            if start == "over":
                assume_over(C)
            h = s.restore(k, C) if C is not None else s.default(k) if default else s.new(k, K)
            stream(s, k, h, cut(D, sizes), how)
            s.ckpt(k, h)
            if s.m.has(k + "_finish"):
                s.finish(k, h)
            s.fins(k, h)
        return sc
    B = c.run(mk(ms[0], "p"), "B.")
    for m in ms[1:]:
        for k in m.kinds:
            if k in "pd":
                c.compare("%s in %s vs p in %s: %s of %s%s" % (k, m, ms[0], how, list(sizes), "" if start is None else
                                                               " from count %s" % start), mk(m, k), B)
                if c.violations:
                    return


def once(c, ms, n, f=0):
    K, D, E = kvars(), bvars(n), bvars(f, "e")

    def mk(m, w):
        def sc(s):
            s.use(m)
            h = s.new("p", K)
            if f:
                s.append("p", h, E)
            s.oneshot("p", h, D, w)
        return sc
    for w in ALLW:
        B = c.run(mk(ms[0], w), "B.")
        for m in ms[1:]:
            c.compare("hash%d of %d bytes after %d: p in %s vs %s" % (w, n, f, m, ms[0]), mk(m, w), B)
            if c.violations:
                return


def built(c, ms, n):
    """the collection builder's hasher, fed bytes"""
    K, D = kd(n)

    def mk(m, k):
        def sc(s):
            s.use(m)
            if k == "b":
                b = s.builder()
                s.call("b_new", s.key(K), b)
                h = s.hasher("d")
                s.call("b_build", b, h)
                k2 = "d"
            else:
                h, k2 = s.new(k, K), k
            s.append(k2, h, D, "hwrite")
            s.finish(k2, h)
        return sc
    B = c.run(mk(ms[0], "p"), "B.")
    for m in ms[1:]:
        c.compare("builder's hasher in %s vs p in %s: %d bytes" % (m, ms[0], n), mk(m, "b"), B)


def hop(c, path, f, L):
    """a checkpoint moves between targets; the result is that of one uninterrupted hasher"""
    K, D = kvars(), bvars(f + L * (len(path) - 1))

    def a(s):
        s.use(path[0])
        h = s.new("p", K)
        s.append("p", h, D[:f])
        q = f
        for i, m in enumerate(path[1:]):
            ck = s.ckpt("p", h, "hop%d" % i)
            s.use(m)
            h = s.restore("p", ck, "hop%d" % i)
            s.append("p", h, D[q:q + L])
            q += L
        s.ckpt("p", h)
        s.fins("p", h)

    def b(s):
        s.use(path[0])
        h = s.new("p", K)
        s.append("p", h, D)
        s.ckpt("p", h)
        s.fins("p", h)
    c.compare("checkpoint hop %s, %d bytes, then %d" % (">".join(m.label for m in path), f, L), a, b,
              labels=("ckpt", "fin64", "fin128", "fin256"))


def restored_lens(f, q):
    if not q:
        return sorted({*range(0, 40), 64, 65})
    return sorted({0 if f % 2 else 3, 32 - f} | ({37} if f % 4 == 1 else set()))


def main(k):
    q = k.tier == "quick"
    use_cpu()
    x = machine()
    T = [(build.PPC64, False), (build.PPC, False), (build.I686, True)]
    rel = [machine(t, std=st) for t, st in T] + [machine(build.A64), wasm()]
    dev = [machine(t, "dev", std=st) for t, st in T]
    chk = [] if q else [machine(t, "relchk", std=st) for t, st in T] + [machine(build.WASM, std=False)]
    prepare([x] + rel + dev + chk, [x] + rel[:3] + dev[:2])
    be, bed = [x] + rel[:3], [x] + dev
    big = crit([x] + rel[:3], [127, 128, 129, 255, 256, 257, 8225, 65539] if q else [511, 512, 513, 1023, 1024, 1025, 2048, 8225, 65536, 65539, 131077])
    lens = list(range(0, 100 if q else 260))
    for g in chunks(lens + big, 5):
        k.task("append %s" % g[:3], batch, ops, [([x] + (rel if n % 6 == 1 or not q else rel[:3]) + chk, (n,)) for n in g])
    for g in chunks(list(range(0, 40)) + [63, 64, 65, 96] if q else lens, 5):
        k.task("append dev %s" % g[:3], batch, ops, [(bed, (n,)) for n in g])
    ss = [(f, L) for f in range(1, 32) for L in sorted({1, 31 - f, 32 - f, (33 - f, 40, 64 - f, 65)[f % 4]} if q else {
        1, 2, 31 - f, 32 - f, 33 - f, 40, 64 - f, 65}) if L > 0]
    for g in chunks(ss, 12):
        k.task("split %s" % (g[:2],), batch, ops, [(be, y, ("append", "hwrite")[i % 2]) for i, y in enumerate(g)])
    for g in chunks(ss[::6], 6):
        k.task("split dev %s" % (g[:2],), batch, ops, [(bed, y) for y in g])
    st = [((L,), f) for f in list(range(0, 32)) + ["over"] for L in restored_lens(31 if f == "over" else f, q)]
    for g in chunks(st, 12):
        k.task("restored %s" % (g[:2],), batch, ops, [(be, s, "append", f) for s, f in g])
    for g in chunks(st[::5], 8):
        k.task("restored dev %s" % (g[:2],), batch, ops, [(bed, s, "append", f) for s, f in g])
    k.task("defaults", batch, ops, [(b, (n,), "append", None, True) for n in (0, 1, 31, 32, 33) for b in (be, bed)])
    for g in chunks(range(0, 70), 10):
        k.task("one shot %s" % g[:3], batch, once, [([x] + rel if n % 5 == 1 or not q else be, n, 0) for n in g] +
               [(be, n, 1 + n % 31) for n in g if n % 3 == 0 or not q])
    k.task("builder", batch, built, [(b, n) for n in (0, 1, 7, 31, 32, 33, 70) for b in (be, bed)])
    hs = []
    for f in list(range(0, 34)) + [63, 64, 65]:
        for m in rel[:3]:
            for L in (3, 33 - f % 32) if not q else ((3, 33 - f % 32)[f % 2],):
                hs += [([x, m], f, L), ([m, x], f, L)]
        hs.append(([rel[0], rel[1], rel[2], x], f, 5 + f % 4))
    for g in chunks(hs, 12):
        k.task("hops %s" % (g[0][1:],), batch, hop, g)
    k.bounds = {"targets": [str(m) for m in [x] + rel + dev + chk], "classes": "little endian 64 bit (x86_64, aarch64), little endian "
                "32 bit (i686, wasm32), big endian 64 bit (powerpc64), big endian 32 bit (powerpc)", "lengths": "0..%d and %s" % (lens[-1], big),
                "two appends": "every fill 1..31 with lengths around the packet boundary", "restored": "1312 arbitrary bits per count "
                "0..31, larger counts as one class", "keys, bytes": "all (symbolic)"}
    k.explanation = ("The portable hasher is compiled to LLVM IR for big- and little-endian, 32- and 64-bit targets and executed "
                     "symbolically with each target's data layout; z3 decides that all results, and all 164 checkpoint bytes, "
                     "coincide with the x86_64 build's for the same key and bytes; checkpoints also hop between targets.  "
                     "Counterexamples are replayed natively and under qemu (ppc64, ppc, i386, aarch64) or node.")
    k.assumptions = ["core built from the matching rust-src with panic=abort for the big-endian targets",
                     "Hasher::write_u16 and wider use std's native-endian default and are outside the property (bytes only)"]
