"""C13: shared-reference operations change nothing; clones are identical and independent."""
import random
import image
from safety import *


def begin(s, m, k, start, p=""):
    s.use(m)
    if type(start) is int:
        return s.restore(k, ckpt_bytes(start, p + "c"))
    return s.default(k) if start == "default" else s.new(k, kvars(p + "k"))


def observe(s, k, h, what, tag, D, dbg=0):
    if "c" in what:
        s.ckpt(k, h, tag + "c")
    if "f" in what and s.m.has(k + "_finish"):
        s.finish(k, h, tag + "f")
        s.finish(k, h, tag + "g")
    if "d" in what:
        s.debug(k, h, dbg, flags=dbg == 2)
    if "l" in what:
        g = s.clone(k, h)
        s.append(k, g, D)
        s.fin(k, g, 64, tag + "l")
        s.call(k + "_drop", g)
    if "b" in what:
        # clone_from only reads its source
        g = s.new(k, kvars("y"))
        s.append(k, g, D[:3])
        s.call(k + "_clonefrom", g, h)
        s.append(k, g, D)
        s.fin(k, g, 256, tag + "b")


def inserted(c, m, k, sizes, whats, start, dbg=0):
    """observers after every step; every later result as without them"""
    D, E = bvars(sum(sizes)), bvars(9, "e")

    def mk(on):
        def sc(s):
            h = begin(s, m, k, start)
            p = 0
            for i, n in enumerate((0,) + tuple(sizes)):
                if i:
                    s.append(k, h, D[p:p + n])
                    p += n
                if on:
                    observe(s, k, h, whats[i % len(whats)], "o%d" % i, E, dbg)
            s.ckpt(k, h)
            if on:
                observe(s, k, h, "fcd", "z", E, 0)
            s.fins(k, h)
        return sc
    c.compare("%s in %s from %s: %s with observers %s" % (k, m, start, list(sizes), whats), mk(True), mk(False),
              labels=("ckpt", "fin64", "fin128", "fin256"))


def clones(c, m, k, a, x, y, start, how, drop=False):
    """a bytes, then a clone; original and clone continue with different bytes, alternately"""
    A, X, Y = bvars(a), bvars(x, "x"), bvars(y, "y")

    def sc(s):
        h = begin(s, m, k, start)
        s.append(k, h, A)
        if how == "clone":
            g = s.clone(k, h)
        else:
            g = s.new(k, kvars("z"))
            if how != "from0":
                s.append(k, g, bvars(int(how[4:]), "w"))
            s.call(k + "_clonefrom", g, h)
        s.ckpt(k, g, "g0")
        s.ckpt(k, h, "h0")
        s.fins(k, g, "g0")
        s.append(k, g, Y[:y // 2])
        s.append(k, h, X[:x // 2])
        g2 = s.clone(k, g)
        s.append(k, g2, X)
        s.append(k, h, X[x // 2:])
        if drop:
            s.ckpt(k, h, "h1")
            s.fins(k, h, "h")
            s.call(k + "_drop", h)
        s.append(k, g, Y[y // 2:])
        s.ckpt(k, g, "g1")
        s.fins(k, g, "g")
        if not drop:
            s.ckpt(k, h, "h1")
            s.fins(k, h, "h")
        s.fins(k, g2, "g2")

    def ref(s):
        h = begin(s, m, k, start)
        s.append(k, h, A)
        for l in ("g0", "h0"):
            s.ckpt(k, h, l)
        s.fins(k, h, "g0")
        for nm, Z in (("g", Y), ("h", X)):
            h = begin(s, m, k, start)
            s.append(k, h, A)
            s.append(k, h, Z[:len(Z) // 2])
            s.append(k, h, Z[len(Z) // 2:])
            s.ckpt(k, h, nm + "1")
            s.fins(k, h, nm)
        h = begin(s, m, k, start)
        s.append(k, h, A)
        s.append(k, h, Y[:y // 2])
        s.append(k, h, X)
        s.fins(k, h, "g2")
    c.compare("%s in %s from %s: %s after %d, then %d | %d" % (k, m, start, how, a, x, y), sc, ref)


def main(k):
    q = k.tier == "quick"
    use_cpu()
    rng = random.Random(SEED)
    x, xd, ns, n, w = machine(), machine(profile="dev"), machine(std=False), neon(), wasm()
    ms = [x, n, w, xd, ns, machine(feat="+avx2"), machine(feat="+sse4.1")] + ([] if q else [
        machine(build.I686), neon("dev"), wasm("dev"), machine(std=False, profile="dev"), machine(profile="relchk")])
    prepare(ms, [x, xd, n, w])
    image.tasks(k, [x, n, w], 2, q)
    for m in ms:
        for kd in m.kinds:
            if q and m not in (x, n, w) and kd not in "d":
                if m is not xd or kd == "p":
                    continue
            main_m = not q or m in (x, n, w) and (kd != "p" or m is x)
            it = []
            for f in range(0, 33, 1 if main_m and (kd != "d" or not q) else 4 if main_m else 8):
                it.append((m, kd, (f, 33 - f if f % 2 else 5), ("cfdlb", "dl", "cb"), ("new", "default", f % 32)[f % 3], 0))
            it.append((m, kd, (31, 1, 40), ("d", "d", "d", "d"), "new", 0))
            it.append((m, kd, (3, 30), ("", "d"), "new", 2))
            for _ in range(3 if q else 12):
                it.append((m, kd, tuple(rng.randint(0, 40) for _ in range(3)), tuple("".join(rng.sample("cfdlb", rng.randint(
                    1, 4))) for _ in range(3)), rng.randint(0, 31), rng.randint(0, 1)))
            for g in chunks(it, 9):
                k.task("inserted %s %s" % (m, kd), batch, inserted, g)
            it = []
            for f in range(0, 33, 1 if main_m and (kd != "d" or not q) else 4 if main_m else 8):
                it.append((m, kd, f, 34 - f, 7, "new" if f % 2 else f % 32, "clone", bool(f % 3)))
                it.append((m, kd, f, 2, 33, f * 7 % 32 if f % 2 else "new", "from%d" % ((f * 5 + 3) % 32), False))
            for hw in ("from0", "from1", "from31"):
                for f in (0, 1, 16, 31, 32):
                    it.append((m, kd, f, 3, 40, "new", hw, True))
            if main_m:
                it += [(m, kd, nn, 64, 33, "new", hw, False) for nn in crit([m], [63, 64, 96, 127, 128], hi=1500)
                       for hw in ("clone", "from7")]
            for g in chunks(it, 9):
                k.task("clones %s %s" % (m, kd), batch, clones, g)
    k.bounds = {"configurations": [str(m) for m in ms], "histories": "up to four steps; observers (checkpoint, finish twice, "
                "Debug, clone, clone_from as the source) after every step, every fill 0..32; clones and clone_from at every "
                "fill, both continued alternately", "Debug": "every nested formatting call is executed, the text sink is "
                "abstract", "CPU features": "all valuations (both arms of the dispatcher)"}
    k.explanation = ("The IR of histories with and without observer calls, and of an original and its clone under divergent "
                     "continuations, is executed symbolically; z3 decides that all later results and checkpoints coincide.")
    k.assumptions = ["a text sink does not reach back into the hasher (it cannot in safe code)"]
