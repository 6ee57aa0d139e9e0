"""C05: only the concatenated bytes matter, for every hasher type and entry point."""
import random
import image
from lib import *


def one(c, m, k, t, variants, widths=ALLW, restore=None):
    """variants: [(sizes, hows)] of the same t bytes, each vs one append of all t bytes.
    restore: start from an arbitrary state with that many pending bytes instead of new(K)"""
    K, D = kd(t)
    C = ckpt_bytes(restore) if restore is not None else None

    def start(s):
        s.use(m)
        return s.new(k, K) if C is None else s.restore(k, C)

    def ref(s):
        h = start(s)
        s.append(k, h, D)
        s.fins(k, h, ws=widths)
        s.ckpt(k, h)
    B = c.run(ref, "B.")
    for sizes, hows in variants:
        def sc(s):
            h = start(s)
            stream(s, k, h, cut(D, sizes), hows)
            s.fins(k, h, ws=widths)
            s.ckpt(k, h)
        c.compare("%s in %s: %d bytes as %s via %s%s" % (k, m, t, list(sizes), hows,
                                                         "" if restore is None else " from fill %d" % restore),
                  sc, B, hints=("ckpt",), direct=True)
        if c.violations:
            return


def oneshots(c, m, k, t, f):
    """hash{64,128,256}(rest) after f bytes vs append + finalize"""
    K, D = kd(t)

    def ref(s):
        s.use(m)
        h = s.new(k, K)
        s.append(k, h, D)
        s.fins(k, h)
    B = c.run(ref, "B.")
    for w in ALLW:
        def sc(s):
            s.use(m)
            h = s.new(k, K)
            if f:
                s.append(k, h, D[:f])
            s.oneshot(k, h, D[f:], w, "fin%d" % w)
        c.compare("%s in %s: hash%d of %d after %d" % (k, m, w, t - f, f), sc, B, labels=("fin%d" % w,))
        if c.violations:
            return


def hows_of(m, k):
    return [h for h in ("append", "hwrite", "iowrite", "iowriteall") if m.has("%s_%s" % (k, h))]


def variants(m, k, t, rng, full, fmax=33):
    hs = hows_of(m, k)
    out = []
    for f in range(0, min(t, fmax) + 1) if full else sorted({0, 1, min(t, 17), min(t, 31), min(t, 32), t}):
        if f <= t:
            out.append(((f,), "append" if f % 3 else (hs[f % len(hs)], hs[(f // 3) % len(hs)])))
    if t:
        out.append(((1,) * (t - 1), tuple(hs)))
        out.append(((0, t // 2, 0), tuple(hs)))
        out.append(((t, 0), "append"))
        for h in hs[1:]:
            out.append(((t, 0), h))
        # leave stale bytes behind the pending ones, then flush with a short remainder
        if t > 33:
            out.append(((31, 2), "append"))
            out.append(((30, 1, 2, t - 33), "append"))
        for _ in range(3 if full else 1):
            parts = []
            left = t
            while left > 0 and len(parts) < 6:
                x = rng.choice([rng.randint(0, left), rng.randint(0, min(left, 3)), min(left, 31), min(left, 32)])
                parts.append(x)
                left -= x
            out.append((tuple(parts), tuple(rng.choice(hs) for _ in range(4))))
    seen = set()
    r = []
    for v in out:
        if sum(v[0]) <= t and v not in seen:
            seen.add(v)
            r.append(v)
    return r


def main(k):
    q = k.tier == "quick"
    use_cpu()
    rng = random.Random(SEED)
    x, dev, nos, a64, w = machine(), machine(profile="dev"), machine(std=False), neon(), wasm()
    ms = [x, dev, nos, a64, w] + ([] if q else [neon("dev"), wasm("dev"), machine(feat="+avx2"), machine(build.I686)])
    prepare(ms, [x, dev, a64, w])
    image.tasks(k, [x, a64, w], 0, q)
    N = 70 if q else 140
    for m in ms:
        for kind in m.kinds:
            if q and m in (a64, w) and kind == "d":
                continue
            main_m = (m is x and kind != "d") or (m in (a64, w) and kind != "p") or not q
            ts = list(range(0, N)) if main_m else [0, 1, 4, 16, 31, 32, 33, 34, 47, 63, 64, 65, 69]
            items = []
            for t in ts:
                vs = variants(m, kind, t, rng, main_m)
                for g in chunks(vs, 12):
                    items.append((m, kind, t, g))
            for g in chunks(items, 12):
                k.task("%s %s" % (m, kind), batch, one, g)
            it = [(m, kind, t, f) for t in (range(0, 67) if main_m else (0, 5, 31, 32, 33, 64))
                  for f in sorted({0, t // 2})]
            for g in chunks(it, 10):
                k.task("oneshot %s %s" % (m, kind), batch, oneshots, g)
            # arbitrary states (restored): same law
            it = [(m, kind, t, variants(m, kind, t, rng, False), ALLW, f) for f in (range(0, 32, 1 if main_m else 11))
                  for t in sorted({1, 33 - f, 64 - f} if main_m and q else {40} if q else {*range(0, 40, 3), 33 - f, 64 - f})]
            for g in chunks(it, 6):
                k.task("restored %s %s" % (m, kind), batch, one, g)
    big = crit([x], [127, 128, 129, 256, 257, 8225, 65539] if q else [255, 256, 257, 511, 513, 1023, 1024, 1025, 2049, 8225, 65535, 65536, 65539, 131077])
    for m in (x, a64, w):
        for kind in m.kinds:
            it = [(m, kind, n, [((1,), "append"), ((n - 1,), "append"), ((n // 2,), "append"), ((31, 64), "hwrite"
                   if m.has(kind + "_hwrite") else "append"), ((33, n - 66), "append")]) for n in big]
            for g in chunks(it, 3):
                k.task("long %s %s" % (m, kind), batch, one, g)
    k.bounds = {"configurations": [str(m) for m in ms], "total length": "0..%d and %s" % (N - 1, big),
                "splits": "every first-chunk size 0..33, all single bytes, empty appends, stale-tail patterns, sampled "
                          "partitions with mixed entry points", "entry points": ["append", "Hasher::write",
                          "io::Write::write", "io::Write::write_all", "hash64/128/256"],
                "keys, bytes": "all (symbolic)"}
    k.explanation = ("Relational: for every hasher type and every listed chunking of the same symbolic bytes, the "
                     "symbolically executed LLVM IR gives the same three results as one append of all the bytes, from a new "
                     "hasher (symbolic key) and from an arbitrary restored state.")
    k.assumptions = ["partitions and totals outside the bounds are covered only through the arbitrary-state instances"]
