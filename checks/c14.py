"""C14: checkpoint bytes are a canonical encoding of key and bytes consumed so far."""
import random
import c05
from safety import *


def canon(c, m, k, t, vs, start=None):
    """every chunking of the same t bytes gives the same 164 bytes"""
    K, D = kd(t)
    C = ckpt_bytes(start) if start is not None else None

    def mk(sizes, hows, hop=None):
        def sc(s):
            s.use(m)
            h = s.new(k, K) if C is None else s.restore(k, C)
            for i, part in enumerate(cut(D, sizes)):
                if hop is not None and i == hop:
                    h = s.restore(k, s.ckpt(k, h, "hop"), "hop")
                s.append(k, h, part, hows[i % len(hows)] if type(hows) is tuple else hows)
            s.ckpt(k, h)
        return sc
    B = c.run(mk((t,), "append"), "B.")
    for sizes, hows in vs:
        for hop in (None, 1) if len(sizes) > 1 or sum(sizes) < t else (None,):
            c.compare("%s in %s: checkpoint of %d bytes as %s via %s%s%s" % (
                k, m, t, list(sizes), hows, "" if hop is None else " with a restore", "" if start is None else
                " from fill %d" % start), mk(sizes, hows, hop), B, labels=("ckpt",))
            if c.violations:
                return


def backends(c, mk, ref, t, sizes, start=None):
    """the same stream on every backend and target"""
    K, D = kd(t)
    C = ckpt_bytes(start) if start is not None else None

    def run(m, k):
        def sc(s):
            s.use(m)
            h = s.new(k, K) if C is None else s.restore(k, C)
            stream(s, k, h, cut(D, sizes))
            s.ckpt(k, h)
        return sc
    B = c.run(run(*ref), "B.")
    for m, k in mk:
        c.compare("checkpoint of %d bytes as %s%s: %s in %s vs %s in %s" % (
            t, list(sizes), "" if start is None else " from fill %d" % start, k, m, ref[1], ref[0]), run(m, k), B)
        if c.violations:
            return


def identity(c, m, k, sizes, m2, k2):
    """restoring a produced checkpoint (on any backend) and checkpointing gives the same bytes"""
    K, D = kd(sum(sizes))

    def a(s):
        s.use(m)
        h = s.new(k, K)
        stream(s, k, h, cut(D, sizes))
        ck = s.ckpt(k, h, "hop")
        s.use(m2)
        g = s.restore(k2, ck, "hop")
        s.ckpt(k2, g)

    def b(s):
        s.use(m)
        h = s.new(k, K)
        stream(s, k, h, cut(D, sizes))
        s.ckpt(k, h)
    c.compare("%s in %s after %s: restored by %s in %s and checkpointed again" % (k, m, list(sizes), k2, m2), a, b,
              labels=("ckpt",))


def absorbed(c, m, k, sizes, start=None):
    """the bytes that follow the state words do not depend on what was absorbed before"""
    t = sum(sizes)
    f = start or 0
    pend = (f + t) % 32
    D, E = bvars(t), bvars(t, "e")
    new = max(0, t - pend)                 # of the appended bytes, these are absorbed

    def mk(X, C):
        def sc(s):
            s.use(m)
            h = s.new(k, kvars()) if C is None else s.restore(k, C)
            stream(s, k, h, cut(X, sizes))
            ck = s.ckpt(k, h, "all")
            del s.obs["all"]
            o = s.ops.pop()
            s.ops.append(("read", "tail", o[2], o[3] + 128, 36, 1))
            s.obs["tail"] = [(8, v) for v in ck[128:]]
        return sc
    C = C2 = None
    if start is not None:
        C, C2 = ckpt_bytes(start), ckpt_bytes(start, "e")
        if f + t < 32:
            # nothing absorbed: the pending bytes stay
            C2 = C2[:128] + C[128:]
    c.compare("%s in %s: no absorbed byte in the checkpoint after %s%s" % (k, m, list(sizes), "" if start is None else
              " from fill %d" % start), mk(D, C), mk(E[:new] + D[new:], C2))


def main(k):
    q = k.tier == "quick"
    use_cpu()
    rng = random.Random(SEED)
    x, xd, ns, n, w, i6 = machine(), machine(profile="dev"), machine(std=False), neon(), wasm(), machine(build.I686)
    ms = [x, n, w, xd, ns, i6] + ([] if q else [machine(feat="+avx2"), neon("dev"), wasm("dev"), machine(profile="relchk")])
    prepare(ms, [x, xd, n, w])
    big = crit([x, n, w], [127, 128, 129, 257, 8225, 65539] if q else [255, 256, 257, 513, 1025, 8225, 65536, 65539, 131077])
    for m in ms:
        for kd in m.kinds:
            main_m = not q or (m in (x, n, w) and kd != "d" and (kd != "p" or m is x))
            it = []
            for t in (range(0, 68) if main_m else (1, 17, 32, 33, 40, 64, 65)):
                for g in chunks(c05.variants(m, kd, t, rng, main_m and (not q or t % 4 == 1)), 12):
                    it.append((m, kd, t, g))
            for f in (range(0, 32, 1 if main_m else 9)):
                for t in (34 - f if f % 2 else 65 - f,):
                    it.append((m, kd, t, [((1, 32 - f), "append"), ((32 - f,), "append"), ((31 - f, 2), "append")], f))
            if main_m:
                it += [(m, kd, nn, [((31, 2), "append"), ((5,), "append"), ((nn - 1,), "append")]) for nn in big]
            for g in chunks(it, 8):
                k.task("chunkings %s %s" % (m, kd), batch, canon, g)
            it = [(m, kd, s) for s in [(31, 2), (31, 1), (32,), (33,), (31, 33), (16, 16, 1), (63,), (63, 2), (40, 30), (0,), (5,),
                                       (31, 1, 31, 2), (20, 20, 20)]]
            it += [(m, kd, (t,), f) for f in range(0, 32, 1 if main_m else 8) for t in sorted({0, 1, 32 - f, 33 - f})]
            if main_m:
                it += [(m, kd, (t,)) for t in range(0, 70)] + [(m, kd, (t, 33)) for t in range(0, 33, 1 if not q else 3)]
            for g in chunks(it, 30):
                k.task("absorbed %s %s" % (m, kd), batch, absorbed, g)
            it = [(m, kd, s, m, kd) for s in [(t,) for t in (range(0, 68) if main_m else (0, 9, 32, 40))] +
                  [(31, 2), (40, 30), (16, 16, 31)]]
            if main_m:
                it += [(m, kd, s, m2, k2) for s in [(31, 2), (7,), (64,), (50, 13)] for m2 in (x, n, w, i6) for k2 in m2.kinds
                       if k2 != "d" and (m2, k2) != (m, kd)]
            for g in chunks(it, 40):
                k.task("identity %s %s" % (m, kd), batch, identity, g)
    others = [(x, "s"), (x, "a"), (n, "n"), (w, "w")]
    wide = others + [(x, "d"), (xd, "p"), (xd, "s"), (xd, "a"), (i6, "p"), (ns, "p"), (n, "d"), (w, "d"), (n, "p"), (w, "p")]
    it = [(others if t % 8 else wide, (x, "p"), t, s) for t in range(0, 70 if q else 140) for s in ((t,), (31, 2))
          if sum(s) <= t]
    it += [(others if f % 8 else wide, (x, "p"), 33, (3, 30), f) for f in range(0, 32)]
    it += [(others, (x, "p"), nn, (nn,)) for nn in big]
    for g in chunks(it, 10):
        k.task("backends", batch, backends, g)
    k.bounds = {"configurations": [str(m) for m in ms], "total length": "0..67 and %s" % big, "chunkings": "stale-tail patterns, "
                "first-chunk sizes, single bytes, empty appends, mixed entry points, with and without a restore in between",
                "keys, bytes": "all (symbolic), arbitrary restored states"}
    k.explanation = ("All 164 checkpoint bytes of histories that consumed the same symbolic stream are compared as terms: "
                     "across chunkings, backends, targets and restores; the bytes after the state words are shown not to "
                     "depend on absorbed input by comparing two runs that share only the pending bytes.")
    k.assumptions = ["the state words depend on absorbed input by design (they are the hash state)"]
