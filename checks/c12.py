"""C12: Hasher / io::Write / BuildHasher are thin adapters."""
import random
from safety import *

INTS = (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 0), ("i8", 8), ("i16", 16), ("i32", 32),
        ("i64", 64), ("i128", 128), ("isize", 0))


def native_bytes(m, v, w):
    bs = [ext(v, 8 * i, 8) for i in range(w // 8)]
    return bs if m.prog.little else bs[::-1]


def const(s, label, w, v):
    """an expected constant, comparable with an observed return value or word"""
    o = s.data([(v >> (8 * i)) & 255 for i in range(w // 8)])
    s.read(label, o, w // 8, word=w // 8)


def begin(s, m, k, start):
    s.use(m)
    if type(start) is int:
        return s.restore(k, ckpt_bytes(start))
    return s.default(k) if start == "default" else s.new(k, kvars())


def refhist(m, k, D, marks, start):
    """one append of D[:n] and finalize64 for every n of marks; the checkpoint after all of D"""
    def sc(s):
        for i, n in enumerate(marks):
            h = begin(s, m, k, start)
            s.append(k, h, D[:n])
            s.fin(k, h, 64, "f%d" % i)
        h = begin(s, m, k, start)
        s.append(k, h, D)
        s.ckpt(k, h)
        s.fins(k, h)
    return sc


def observed(m, k, D, sizes, hows, start):
    """the same bytes through the adapters, finish (twice) after every write"""
    def sc(s):
        h = begin(s, m, k, start)
        p = 0
        i = 0
        for j, n in enumerate(sizes):
            how = hows[j % len(hows)]
            d = s.data(D[p:p + n])
            p += n
            if how in ("iowrite", "iocopy"):
                o = s.raw(8, 8, "n")
                r = s.call("%s_%s" % (k, how), h, d, n, o)
                s.ret("r%d" % j, r, 8)
                s.read("n%d" % j, o, 8 if how == "iocopy" else m.prog.ptr, word=8 if how == "iocopy" else m.prog.ptr)
            elif how == "iowriteall":
                s.ret("r%d" % j, s.call(k + "_iowriteall", h, d, n), 8)
            else:
                s.appendref(k, h, d, n, how)
            for _ in range(2):
                s.finish(k, h, "f%d" % i)
                i += 1
            if s.m.has(k + "_ioflush") and j % 2:
                s.ret("flush%d" % j, s.call(k + "_ioflush", h), 8)
                s.finish(k, h, "f%d" % i)
                i += 1
        s.ckpt(k, h)
        s.fins(k, h)
    return sc


def expected(m, k, D, sizes, hows, start):
    marks = []
    n = 0
    for j, z in enumerate(sizes):
        n += z
        marks += [n, n]
        if m.has(k + "_ioflush") and j % 2:
            marks.append(n)
    base = refhist(m, k, D[:n], marks, start)

    def sc(s):
        base(s)
        for j, z in enumerate(sizes):
            how = hows[j % len(hows)]
            if how in ("iowrite", "iocopy"):
                const(s, "r%d" % j, 8, 1)
                const(s, "n%d" % j, 64 if how == "iocopy" else 8 * m.prog.ptr, z)
            elif how == "iowriteall":
                const(s, "r%d" % j, 8, 1)
            if m.has(k + "_ioflush") and j % 2:
                const(s, "flush%d" % j, 8, 1)
    return sc


def hist(c, m, k, sizes, hows, start="new"):
    hows = [h for h in hows if m.has("%s_%s" % (k, h))] or ["hwrite"]
    D = bvars(sum(sizes))
    c.compare("%s in %s from %s: %s via %s, finish after each" % (k, m, start, list(sizes), hows),
              observed(m, k, D, sizes, hows, start), expected(m, k, D, sizes, hows, start))


def vectored(c, m, k, a, b, pre):
    """write_vectored consumes a prefix of the buffers and reports exactly its length"""
    if not m.has(k + "_iowritev"):
        return
    D = bvars(a + b + pre)

    def sc(s):
        h = begin(s, m, k, "new")
        s.append(k, h, D[:pre])
        o = s.raw(8, 8, "n")
        r = s.call(k + "_iowritev", h, s.data(D[pre:pre + a]), a, s.data(D[pre + a:]), b, o)
        s.ret("r", r, 8)
        s.read("n", o, m.prog.ptr, word=m.prog.ptr)
        s.finish(k, h)
        s.ckpt(k, h)
    ps = c.run(sc, "A.")
    ns = {p.obs["n"][0][1] for p in ps if p.end is None and "n" in p.obs}
    n = next(iter(ns)) if len(ns) == 1 else a
    if type(n) is not int or not n <= a + b:
        n = a or b
    if n == 0 and a + b:
        n = a or b

    def ref(s):
        h = begin(s, m, k, "new")
        s.append(k, h, D[:pre + n])
        const(s, "r", 8, 1)
        const(s, "n", 8 * m.prog.ptr, n)
        s.fin(k, h, 64, "finish")
        s.ckpt(k, h)
    c.compare("%s in %s: write_vectored(%d, %d) after %d" % (k, m, a, b, pre), ps, ref)


def ints(c, m, k, pre, names):
    """write_u8 .. write_i128: the value's bytes in native order"""
    D = bvars(pre)
    for nm, w in names:
        w = w or 8 * m.prog.ptr
        v = var("v" + nm, w) if w <= 64 else cat([(64, var("vhi", 64)), (64, var("vlo", 64))])

        def sc(s):
            h = begin(s, m, k, "new")
            s.append(k, h, D)
            if w == 128:
                s.call("%s_w%s" % (k, nm), h, ext(v, 0, 64), ext(v, 64, 64))
            else:
                s.call("%s_w%s" % (k, nm), h, v)
            s.finish(k, h)
            s.ckpt(k, h)

        def ref(s):
            h = begin(s, m, k, "new")
            s.append(k, h, D)
            s.append(k, h, native_bytes(m, v, w))
            s.fin(k, h, 64, "finish")
            s.ckpt(k, h)
        c.compare("%s in %s: write_%s after %d bytes" % (k, m, nm, pre), sc, ref)
        if c.violations:
            return


def value_bytes(m, hv, D):
    """what (u32, &[u8])::hash writes: the integer, the slice's length, its bytes"""
    return native_bytes(m, hv, 32) + native_bytes(m, len(D), 8 * m.prog.ptr) + list(D)


def values(c, m, k, n):
    """a hashed value is hashed as the bytes core's Hash impls write"""
    D = bvars(n)
    hv = var("hv", 32)

    def sc(s):
        h = begin(s, m, k, "new")
        s.call(k + "_hashval", h, hv, s.data(D), n)
        s.finish(k, h)
        s.ckpt(k, h)

    def ref(s):
        h = begin(s, m, k, "new")
        s.append(k, h, value_bytes(m, hv, D))
        s.fin(k, h, 64, "finish")
        s.ckpt(k, h)
    c.compare("%s in %s: hash((u32, %d bytes))" % (k, m, n), sc, ref)


def defaults(c, m, k, n):
    """BuildHasherDefault<T> hands out T::default()"""
    D = bvars(n)

    def sc(s):
        s.use(m)
        h = s.hasher(k)
        s.call(k + "_bhdefault", h)
        s.append(k, h, D, "hwrite")
        s.finish(k, h)
        s.ckpt(k, h)

    def ref(s):
        h = begin(s, m, k, "default")
        s.append(k, h, D)
        s.fin(k, h, 64, "finish")
        s.ckpt(k, h)
    c.compare("%s in %s: BuildHasherDefault, %d bytes" % (k, m, n), sc, ref)


def builders(c, m, n, how, refk):
    """several hashers of one builder, used alternately, and hash_one in between: each like a
    dispatcher (refk d) or portable hasher (refk p) constructed with the builder's key"""
    D, E = bvars(n), bvars(n, "e")
    hv = var("hv", 32)

    def ref(s):
        s.use(m)
        for nm, X in (("1", D), ("2", E), ("3", D + E)):
            h = begin(s, m, refk, how)
            s.append(refk, h, X)
            s.ckpt(refk, h, "ckpt" + nm)
            s.fins(refk, h, nm)
            s.fin(refk, h, 64, nm)
        for nm, X in (("one", D), ("one2", E)):
            h = begin(s, m, refk, how)
            s.append(refk, h, value_bytes(m, hv, X))
            s.fin(refk, h, 64, nm)

    def sc(s):
        s.use(m)
        b = s.builder()
        if how == "default":
            s.call("b_default", b)
        else:
            s.call("b_new", s.key(kvars()), b)
        g, h = s.hasher("d"), s.hasher("d")
        s.call("b_build", b, g)
        s.append("d", g, D[:n // 2], "hwrite")
        s.call("b_build", b, h)
        s.append("d", h, E[:n // 3], "hwrite")
        o = s.raw(8, 8, "o")
        s.call("b_hashone", b, hv, s.data(D), n, o)
        s.read("one", o, 8)
        s.append("d", g, D[n // 2:], "hwrite")
        s.finish("d", g, "1")
        s.append("d", h, E[n // 3:], "hwrite")
        s.finish("d", h, "2")
        o = s.raw(8, 8, "o")
        s.call("b_hashone", b, hv, s.data(E), n, o)
        s.read("one2", o, 8)
        i = s.hasher("d")
        s.call("b_build", b, i)
        s.append("d", i, D + E, "hwrite")
        s.finish("d", i, "3")
        for nm, x in (("1", g), ("2", h), ("3", i)):
            s.ckpt("d", x, "ckpt" + nm)
            s.fins("d", x, nm)
    c.compare("builder (%s) in %s, %d bytes vs %s" % (how, m, n, refk), sc, ref)


HOWS = ("hwrite", "iowrite", "iowriteall", "append", "iocopy")


def main(k):
    q = k.tier == "quick"
    use_cpu()
    rng = random.Random(SEED)
    x, xd, ns, w, n = machine(), machine(profile="dev"), machine(std=False), wasm(), neon()
    ms = [x, xd, ns, w, n, machine(feat="+avx2")] + ([] if q else [machine(build.I686), neon("dev"), wasm("dev"), machine(
        std=False, profile="dev"), machine(feat="+sse4.1"), machine(profile="relchk")])
    prepare(ms, [x, xd, w, n])
    for m in ms:
        for kd in m.kinds:
            if not m.has(kd + "_hwrite"):
                continue
            main_m = m in (x, w) and kd != "d" or not q
            it = []
            for t in (range(0, 69) if main_m else (0, 3, 31, 32, 33, 64)):
                it.append((m, kd, (t, 2), [HOWS[t % 5], HOWS[(t // 5) % 5]], ("new", "default", t % 32)[t % 3]))
            for _ in range(24 if not q else 10 if main_m else 3):
                sizes = tuple(rng.choice((0, 1, 2, 7, 31, 32, 33, rng.randint(0, 70))) for _ in range(4))
                it.append((m, kd, sizes, [rng.choice(HOWS) for _ in range(4)], rng.choice(["new", "default", rng.randint(0, 31)])))
            for how in HOWS:
                for f in (0, 9, 31):
                    it.append((m, kd, (0, 1, 0, 32, 0), [how], f))
            if main_m:
                for sz in crit([m], [127, 128, 129, 255, 257] if q else [255, 256, 257, 511, 512, 513, 1024, 1025, 2048], hi=9000):
                    it.append((m, kd, (sz,), [HOWS[sz % 5]]))
                    if sz < 600:
                        it.append((m, kd, (sz,), ["iowrite"]))
            for g in chunks(it, 10):
                k.task("histories %s %s" % (m, kd), batch, hist, g)
            it = [(m, kd, a, b, pre) for a in (0, 1, 31, 33) for b in (0, 5, 32) for pre in ((0, 7) if main_m else (0,))]
            for g in chunks(it, 24):
                k.task("vectored %s %s" % (m, kd), batch, vectored, g)
            it = [(m, kd, pre, INTS) for pre in ((0, 1, 15, 29, 31) if q and main_m else (3, 30) if q else range(0, 32))]
            for g in chunks(it, 3):
                k.task("integers %s %s" % (m, kd), batch, ints, g)
            it = [(m, kd, t) for t in ((0, 1, 4, 20, 21, 32, 64) if q else range(0, 66))]
            for g in chunks(it, 12):
                k.task("values %s %s" % (m, kd), batch, values, g)
            k.task("defaults %s %s" % (m, kd), batch, defaults, [(m, kd, t) for t in (0, 5, 33)])
        it = [(m, t, how, r) for t in ((0, 1, 7, 32, 45) if q else range(0, 67)) for how in ("new", "default") for r in "dp"]
        for g in chunks(it, 10):
            k.task("builder %s" % m, batch, builders, g)
    k.bounds = {"configurations": [str(m) for m in ms], "histories": "up to five writes through Hasher::write, io::Write::write, "
                "write_all, io::copy, append and write_vectored, finish twice after each, flush; each write 0..70 bytes, single "
                "writes up to the code's thresholds", "integers": "write_u8 .. write_i128, usize, isize: all values",
                "builder": "three hashers of one builder used alternately with hash_one; all keys", "CPU features": "all valuations"}
    k.explanation = ("Each adapter history is executed symbolically and compared with the same bytes given to append on a "
                     "fresh hasher of the same type: finish (repeated), returned lengths and results, checkpoints and all "
                     "widths; hashers of a builder are compared with directly constructed ones.")
    k.assumptions = ["core's Hash impls are executed as compiled (their byte stream is part of the toolchain)",
                     "HashMap itself is not executed: it only calls build_hasher, write and finish"]
