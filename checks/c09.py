"""C09: only the slices and the hasher are accessed, at any alignment; results do not depend on addresses."""
from safety import *

MEM = ("oob", "misalign", "undef", "ub", "rowrite")


def guard(c, name, sc, labels=None, n=1):
    """the scenario accesses memory validly for every placement, and two runs on different placements
    (and different fresh-memory contents) return the same values"""
    A = c.run(sc, "A.")
    B = c.run(sc, "B.")
    bad = False
    for p in A + B:
        c.obl += n
        if p.end is None:
            c.done += n
            continue
        bad = True
        if p.end[0] in MEM:
            if confirm(c, name, p, (1, 2, 0)):
                return
            if asan(c, name, p):
                return
            c.inconclusive.append("%s: %s (%s), not reproduced natively" % (name, p.end[0], p.end[1][:200]))
        else:
            c.inconclusive.append("%s: path ends with %s (%s)" % (name, p.end[0], p.end[1][:160]))
    if bad:
        return
    c.compare(name + ", two placements", A, B)


def asan(c, name, p):
    """an access the plain run survives: AddressSanitizer, then memcheck"""
    env = assignment(c, p)
    if env is None:
        return False
    for how in ("asan", "memcheck"):
        try:
            r, text = rp.replay_checked(MACH, p.ops, env, p.bases, how)
        except (rp.ReplayError, build.BuildError, OSError, IndexError) as e:
            c.inconclusive.append("%s: %s replay failed: %s" % (name, how, str(e)[:200]))
            continue
        if r:
            c.violation(name, "%s: %s; under %s: %s" % (p.end + (how, r[:400])), env, text + "\n" + r + "\n")
            return True
    return False


def parts(c, m, k, sizes, how="append"):
    K, D = kd(sum(sizes))

    def sc(s):
        s.use(m)
        h = s.new(k, K)
        for i, d in enumerate(cut(D, sizes)):
            s.append(k, h, d, how)
        w = (64, 128, 256)[sum(sizes) % 3]
        s.fin(k, h, w)
        s.ckpt(k, h)
    guard(c, "%s %s %s%s" % (m, k, how, list(sizes)), sc)


def allops(c, m, k, f, L):
    C, D = ckpt_bytes(f), bvars(L)

    def sc(s):
        s.use(m)
        if f is None:
            rt.assume(not_(1, ult(32, cat([(8, C[163 - i]) for i in range(4)]), 32)))
        h = s.restore(k, C)
        everything(s, k, h, D)
    guard(c, "%s %s restore(count %s), every operation with %d bytes" % (m, k, "> 31" if f is None else f, L), sc)


def oneshot(c, m, k, n):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        for w in ALLW:
            s.oneshot(k, s.new(k, K), D, w)
    guard(c, "%s %s one-shot(%d)" % (m, k, n), sc)


def builder(c, m, n):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        b = s.builder()
        s.call("b_new", s.key(K), b)
        h = s.hasher("d")
        s.call("b_build", b, h)
        s.append("d", h, D, "hwrite")
        s.finish("d", h)
        o = s.raw(8, 8, "o")
        s.call("b_hashone", b, var("hv", 32), s.data(D), n, o)
        s.read("hashone", o, 8)
        for k in "sa":
            if s.m.has(k + "_trynew"):
                h = s.hasher(k)
                if s.ret("try" + k, s.call(k + "_trynew", s.key(K), h), 8) == 1:
                    s.append(k, h, D)
                    s.fin(k, h, 64, "t" + k)
        h = s.default("d")
        s.append("d", h, D)
        s.fin("d", h, 256, "def")
    guard(c, "%s builder, probing constructors, default with %d bytes" % (m, n), sc)


def main(k):
    q = k.tier == "quick"
    use_cpu()
    if not q:
        rt.full_addr = True
    x, xd, n_, w_ = machine(), machine(profile="dev"), neon(), wasm()
    full = [x, n_, w_]
    others = [xd, machine(std=False), machine(feat="+avx2"), machine(feat="+sse4.1"), machine(cpu="native"),
              machine(std=False, feat="+avx2"), neon("dev"), wasm("dev"), machine(build.I686)]
    ms = full + others
    prepare(ms, [x, n_, w_] if q else ms)
    for m in ms:
        for kind in m.kinds:
            if kind == "d" and m.cfg.target != build.X64:
                ns, ss = [0, 5, 32, 45], []
            elif m in full or not q:
                ns = list(range(0, 70)) + [95, 96, 97, 127, 128, 129]
                ss = [(f, L) for f in range(1, 32) for L in sorted({1, 32 - f, 40}) if L > 0]
                if kind == "d" and q:
                    ns, ss = ns[::3], ss[::5]
            else:
                ns = list(range(0, 34, 1 if kind != "p" else 3)) + [63, 64, 65]
                ss = [(f, L) for f in range(1, 32, 3) for L in (32 - f, 40)]
                if kind == "d":
                    ns, ss = ns[::4], ss[::4]
            if m in full:
                ns = ns + [n for n in crit([m], [2113, 8225]) if n not in ns]
            for g in chunks([(n,) for n in ns] + ss, 16):
                k.task("append %s %s %s" % (m, kind, g[:3]), batch, parts, [(m, kind, z) for z in g])
            if m.has(kind + "_iowrite") and m in full:
                k.task("io %s %s" % (m, kind), batch, parts, [(m, kind, (n, 33 - n), h) for n in (1, 30) for h in ("hwrite", "iowrite")])
            k.task("one-shot %s %s" % (m, kind), batch, oneshot, [(m, kind, n) for n in ((0, 3, 18, 31, 32, 33) if m in full else (7, 35))])
            fs = [(0, 0), (5, 7), (17, 32), (31, 40), (None, 3), (None, 33)] if m in full else [(5, 7), (None, 33)]
            if not q:
                fs = [(f, L) for f in list(range(32)) + [None] for L in (0, 7, 33)]
            for g in chunks(fs, 3):
                k.task("operations %s %s %s" % (m, kind, g[:1]), batch, allops, [(m, kind) + z for z in g])
        k.task("builder %s" % m, batch, builder, [(m, n) for n in (3, 37)])
    k.bounds = {"configurations": [str(m) for m in ms], "placement": "every position within a page (12 symbolic address bits per "
                "object, pages distinct)" if q else "the whole address of every object is symbolic, objects do not overlap",
                "data length": "0..69 and around 96, 128, code thresholds", "two chunks": "every fill 1..31",
                "memory outside the objects": "any access outside an object's exact extent ends the path"}
    k.explanation = ("Every slice, key, checkpoint, output and hasher is a separate object with exactly its size and its declared "
                     "alignment, at a symbolic address; the optimised IR is executed symbolically: an access outside an object, an "
                     "alignment requirement z3 can falsify, a value read from uninitialised memory that reaches a branch or a result, "
                     "or a write through a shared reference ends the path and is replayed natively against guard pages and two fill "
                     "patterns.  Each scenario is run twice with independent address variables and z3/normal form prove the results "
                     "equal, so they are functions of the bytes alone.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1",
                     "accesses inside one object but outside one of its fields are not distinguished"]
