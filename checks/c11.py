"""C11: restoring from arbitrary 164 bytes is total and backend-independent; restored hashers
obey the laws of fresh ones."""
from safety import *

WIDE = (32, 33, 34, 63, 64, 96, 127, 128, 159, 255, 256, 0x7fffffff, 0x80000000, 0x8000001f, 0xffffffe0, 0xffffffff)


def start(s, m, k, C, f, src=None):
    s.use(m)
    if f is None:
        assume_over(C)
    return s.restore(k, C)


def img(f):
    return ckpt_over() if f is None else ckpt_bytes(f)


def follow(m, k, f, hist, adapt=False):
    """hist: list of histories, each a list of append sizes; every result of each"""
    C = img(f)
    N = max(sum(h) for h in hist)
    D = bvars(N)

    def sc(s):
        for i, sizes in enumerate(hist):
            h = start(s, m, k, C, f)
            p = 0
            for j, n in enumerate(sizes):
                s.append(k, h, D[p:p + n])
                p += n
            s.fins(k, h, "%d" % i)
            s.ckpt(k, h, "%dckpt" % i)
            if adapt and i == 0 and s.m.has(k + "_hwrite"):
                s.append(k, h, D[:n], "hwrite")
                s.finish(k, h)
                s.oneshot(k, h, D[:n], 64)
    return sc


def equal(c, mk, ref, f, hist):
    """every (machine, kind) of mk gives what ref gives after restoring the same bytes"""
    ad = all(m.has(k + "_hwrite") for m, k in mk)
    B = c.run(follow(ref[0], ref[1], f, hist, ad), "B.")
    for m, k in mk:
        c.compare("restore(arbitrary bytes, count %s) then %s: %s in %s vs %s in %s" %
                  (cnt(f), hist, k, m, ref[1], ref[0]), follow(m, k, f, hist, ad), B)
        if c.violations:
            return


def cnt(f):
    return "> 31" if f is None else f


def laws(c, m, k, f, a, b):
    """empty append; a+b bytes at once or apart; its own checkpoints restore transparently"""
    C, D = img(f), bvars(a + b)

    def ref(s):
        h = start(s, m, k, C, f)
        s.ckpt(k, h, "c0")
        s.fins(k, h, "0")
        s.append(k, h, D)
        s.fins(k, h)
        s.ckpt(k, h)

    def empty(s):
        h = start(s, m, k, C, f)
        s.append(k, h, [])
        s.ckpt(k, h, "c0")
        s.fins(k, h, "0")
        s.append(k, h, D)
        s.append(k, h, [])
        s.fins(k, h)
        s.ckpt(k, h)

    def split(s):
        h = start(s, m, k, C, f)
        s.append(k, h, D[:a])
        s.append(k, h, D[a:])
        s.fins(k, h)
        s.ckpt(k, h)

    def again(s):
        h = start(s, m, k, C, f)
        c0 = s.ckpt(k, h, "c0")
        h = s.restore(k, c0, "c0")
        s.fins(k, h, "0")
        s.append(k, h, D[:a])
        c1 = s.ckpt(k, h, "c1")
        h = s.restore(k, c1, "c1")
        s.ckpt(k, h, "c1b")
        s.append(k, h, D[a:])
        s.fins(k, h)
        s.ckpt(k, h)

    B = c.run(ref, "B.")
    for nm, sc in (("empty appends", empty), ("appends of %d and %d" % (a, b), split),
                   ("checkpoint and restore in between", again)):
        c.compare("restored (count %s) %s in %s: %s vs one append of %d" % (cnt(f), k, m, nm, a + b), sc, B)
        if c.violations:
            return


def total(c, m, k, f, L):
    C, D = img(f), bvars(L)

    def sc(s):
        h = start(s, m, k, C, f)
        everything(s, k, h, D, debug=L == 3)
    safe(c, "restore(arbitrary bytes, count %s) on %s in %s, then every operation with %d bytes" % (cnt(f), k, m, L), sc)


def main(k):
    q = k.tier == "quick"
    use_cpu()
    x, xd, xc = machine(), machine(profile="dev"), machine(profile="relchk")
    n, w, nd, wd = neon(), wasm(), neon("dev"), wasm("dev")
    i6, ns = machine(build.I686), machine(std=False)
    devs = [xd, nd, wd]
    ms = [x, n, w, i6, ns] + devs + [xc] + ([] if q else [machine(feat="+avx2"), machine(feat="+sse4.1"), neon("relchk"),
                                            wasm("relchk"), machine(build.I686, "dev"), machine(std=False, profile="dev")])
    prepare(ms, [x, xd, n, w])
    full = list(range(32)) + [None]

    def hists(f, lite=False):
        b = 31 if type(f) is not int or f > 31 else f
        h = [[0], [32 - b], [33]] if q or lite else [[0], [1], [31 - b], [32 - b], [33 - b], [31], [32], [33], [64 - b], [64], [65]]
        if b and not lite:
            h += [[31 - b, 2], [1, 32]]
        return h
    for f in full:
        # all backends of the same optimised build against portable; other targets against x86-64 portable
        same = [(x, kd) for kd in x.kinds if kd != "p" and (kd != "d" or not q or f in (0, 5, 17, 31, None))]
        k.task("backends %s" % f, batch, equal, [(same, (x, "p"), f, hists(f))])
        k.task("targets %s" % f, batch, equal, [([(n, "n"), (w, "w")] + ([(i6, "p"), (ns, "p")] if not q or f in
               (0, 1, 9, 31, None) else []), (x, "p"), f, hists(f, True))])
        k.task("dev %s" % f, batch, equal, [([(xd, "p"), (xd, "s"), (xd, "a"), (nd, "n"), (wd, "w")] if not q or f in (
               0, 13, 31, None) else [(xd, "p")], (x, "p"), f, [[32 - (f or 0)], [0]])])
    for m, kd in [(x, "p"), (x, "s"), (x, "a"), (n, "n"), (w, "w")] + [(x, "d"), (n, "d"), (w, "d")]:
        it = []
        for f in full if kd != "d" else (0, 17, 31, None):
            b = 31 if f is None else f
            it += [(m, kd, f, 32 - b, 3)] if q else [(m, kd, f, a, bb) for a in (1, 31 - b, 32 - b, 33 - b) for bb in (1, 32, 40)]
            if f in (None, 0, 31):
                it += [(m, kd, f, 7, 30)]
        for g in chunks(it, 8):
            k.task("laws %s %s" % (m, kd), batch, laws, g)
    tot = [(xc, "p"), (xd, "p"), (xd, "s"), (xd, "a"), (nd, "n"), (wd, "w")]
    if not q:
        tot = [(m, kd) for m in ms for kd in m.kinds]
    for m, kd in tot:
        it = [(m, kd, f, L) for f in ((0, 20, 31, None) if q else full) for L in ((3,) if q else (0, 3, 33))]
        for g in chunks(it, 8):
            k.task("total %s %s" % (m, kd), batch, total, g)
    # count fields above 31, one by one, and with a symbolic low byte: the class above in concrete form
    wide = WIDE[:4] + WIDE[-4:] if q else WIDE
    for m in (x,) if q else (x, n, w):
        for g in chunks(wide, 4):
            k.task("wide counts %s" % m, batch, equal, [([(m, kd) for kd in m.kinds if kd not in "pd"], (x, "p"), f, [[0], [2]])
                                                       for f in g])
    k.bounds = {"configurations": [str(m) for m in ms], "checkpoint": "all 1312 bits symbolic; the count field: each of "
                "0..31, all values above 31 as one symbolic class, and selected large values",
                "follow-up histories": "one and two appends up to 65 bytes, all widths, finish, one-shot, clone, Debug, "
                "checkpoint, restore of its own checkpoint"}
    k.explanation = ("restore of 164 symbolic bytes is executed in the IR of every configuration; z3 decides that no panic, "
                     "overflow or invalid access is reachable, that every later result equals the portable hasher's on the "
                     "same bytes (same build, other builds and targets), and the laws of fresh hashers.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1", "longer follow-up histories are covered through the "
                     "arbitrary state that starts each instance"]
