"""C06: checkpoint/restore is transparent at every cut point and across backends."""
import random
import image
import backend
from backend import *


def hops(c, path, parts, Ls):
    """absorb `parts` on the first backend, then hop along `path` appending Ls[i] after hop i;
    equal to the uninterrupted hasher of the first backend"""
    m0, k0 = path[0]
    n = sum(parts)
    K, D = kd(n + sum(Ls))

    def a(s):
        s.use(m0)
        h = s.new(k0, K)
        stream(s, k0, h, cut(D[:n], parts))
        p = n
        for i, (m, k) in enumerate(path[1:]):
            ck = s.ckpt(path[i][1], h, "hop%d" % i)
            s.use(m)
            h = s.restore(k, ck, "hop%d" % i)
            if Ls[i]:
                s.append(k, h, D[p:p + Ls[i]])
                p += Ls[i]
        s.fins(path[-1][1], h)
        s.ckpt(path[-1][1], h)

    def b(s):
        s.use(m0)
        h = s.new(k0, K)
        stream(s, k0, h, cut(D[:n], parts))
        s.append(k0, h, D[n:])
        s.fins(k0, h)
        s.ckpt(k0, h)
    c.compare("hops %s after %s then %s" % (">".join("%s:%s" % (m.label, k) for m, k in path), list(parts), list(Ls)),
              a, b, hints=("ckpt",) + tuple("hop%d" % i for i in range(len(path))))


def arb(c, path, f, L):
    """from an arbitrary state with f pending bytes: one more hop changes nothing"""
    C = ckpt_bytes(f)
    D = bvars(L)
    (m0, k0), (m1, k1) = path

    def a(s):
        s.use(m0)
        h = s.restore(k0, C)
        ck = s.ckpt(k0, h, "hop")
        s.use(m1)
        g = s.restore(k1, ck, "hop")
        s.append(k1, g, D)
        s.fins(k1, g)

    def b(s):
        s.use(m0)
        h = s.restore(k0, C)
        s.append(k0, h, D)
        s.fins(k0, h)
    c.compare("arbitrary state f=%d: %s:%s>%s:%s then %d" % (f, m0.label, k0, m1.label, k1, L), a, b, hints=("hop",))


def main(k):
    q = k.tier == "quick"
    use_cpu()
    rng = random.Random(SEED)
    x, dev, nos, a64, w, i6 = machine(), machine(profile="dev"), machine(std=False), neon(), wasm(), machine(build.I686)
    ms = [x, dev, nos, a64, w, i6]
    if not q:
        ms += [machine(feat="+avx2"), machine(feat="+sse4.1"), neon("dev"), wasm("dev"), machine(build.WASM)]
    prepare(ms, ms)
    core = [(x, "p"), (x, "s"), (x, "a"), (x, "d"), (a64, "n"), (w, "w")]
    every = [(m, kd) for m in ms for kd in m.kinds]
    cuts = list(range(0, 34)) + [62, 63, 64, 65, 97] if q else list(range(0, 100))
    image.tasks(k, [x, a64, w], 1, q)
    items = []
    for cu in cuts:
        f = cu % 32
        for i, a in enumerate(core):
            for j, b in enumerate(core):
                Ls = [0, 32 - f] if (i + j + cu) % 3 == 0 else [33 - f] if (i + j + cu) % 3 == 1 else [1, 40]
                if not q:
                    Ls = sorted({0, 1, 31 - f, 32 - f, 33 - f, 64 - f, 40})
                for L in Ls:
                    # a stale tail behind the pending bytes on every other cut
                    parts = (31, cu - 31) if cu > 32 and (i + j) % 2 else (cu,)
                    items.append(([a, b], parts, (L,)))
    for _ in range(150 if q else 3000):
        n = rng.randint(3, 5)
        path = [rng.choice(core if rng.random() < 0.5 else every) for _ in range(n)]
        parts = tuple(rng.choice([rng.randint(0, 40), 31, 32, 33, 1]) for _ in range(rng.randint(1, 2)))
        items.append((path, parts, tuple(rng.choice([0, 1, 31, 32, 33, rng.randint(0, 40)]) for _ in range(n - 1))))
    for e in every:
        for f in (0, 5, 31):
            items.append(([e, e, e], (f,), (0, 33 - f)))
    for g in chunks(items, 24):
        k.task("hops", batch, hops, g)
    it = [([a, b], f, L) for f in range(32) for i, a in enumerate(core) for j, b in enumerate(core)
          for L in ([33 - f] if q else [0, 1, 32 - f, 33 - f, 65]) if not q or (i + j + f) % 4 == 0]
    for g in chunks(it, 24):
        k.task("arbitrary", batch, arb, g)
    k.bounds = {"configurations": [str(m) for m in ms], "cut points": cuts,
                "backend pairs": "all pairs of %s" % ["%s:%s" % (m.label, kd) for m, kd in core],
                "hops": "1 (all pairs), 2..4 (sampled over all backends and targets)",
                "suffix lengths": "0, 1, up to and across the next packet boundary",
                "keys, bytes, arbitrary states": "all (symbolic)"}
    k.explanation = ("Symbolic execution of prefix, checkpoint, restore (on any backend of any target, the symbolic checkpoint "
                     "bytes carried across) and suffix; all three results equal those of the uninterrupted hasher.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1"]
