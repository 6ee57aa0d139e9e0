"""C07: Default is the zero-key hasher, for every hasher type."""
from lib import *

ZERO = [0, 0, 0, 0]


def mkdef(m, k, how):
    def start(s):
        s.use(m)
        if how == "default":
            return s.default(k)
        if how == "bhdefault":
            h = s.hasher(k)
            s.call(k + "_bhdefault", h)
            return h
        b = s.builder()
        s.call("b_default", b)
        h = s.hasher("d")
        s.call("b_build", b, h)
        return h
    return start


def chk(c, m, k, n, split, refs):
    D = bvars(n)
    hows = ["default"]
    if m.has(k + "_bhdefault"):
        hows.append("bhdefault")
    if k == "d":
        hows.append("b_default")

    def body(s, h):
        if split:
            s.append(k, h, D[:split])
        s.append(k, h, D[split:])
        s.fins(k, h)
        s.ckpt(k, h)
        if m.has(k + "_finish"):
            s.finish(k, h)
    B = []
    for rk in [k] + list(refs):
        def ref(s, kk=rk):
            s.use(m)
            h = s.new(kk, ZERO)
            if split:
                s.append(kk, h, D[:split])
            s.append(kk, h, D[split:])
            s.fins(kk, h)
            if kk == k and m.has(k + "_finish"):
                s.finish(k, h)
        B.append((rk, c.run(ref, "B.")))
    for how in hows:
        st = mkdef(m, k, how)

        def sc(s):
            body(s, st(s))
        A = c.run(sc, "A.")
        for rk, b in B:
            c.compare("%s of %s vs new(zero key) of %s, %d bytes (split %d) in %s" % (how, k, rk, n, split, m), A, b,
                      labels=("fin64", "fin128", "fin256", "finish") if rk == k else ("fin64", "fin128", "fin256"))
            if c.violations:
                return


def oneshot(c, m, k, n):
    D = bvars(n)
    for w in ALLW:
        def a(s):
            s.use(m)
            s.oneshot(k, s.default(k), D, w)

        def b(s):
            s.use(m)
            s.oneshot(k, s.new(k, ZERO), D, w)
        c.compare("default().hash%d(%d) of %s in %s" % (w, n, k, m), a, b)
        if c.violations:
            return


def cross(c, m, k, n):
    """against the portable hasher of x86_64 release"""
    D = bvars(n)
    x = machine()

    def a(s):
        s.use(m)
        h = s.default(k)
        s.append(k, h, D)
        s.fins(k, h)

    def b(s):
        s.use(x)
        h = s.default("p")
        s.append("p", h, D)
        s.fins("p", h)
    c.compare("default of %s in %s vs portable, %d bytes" % (k, m, n), a, b)


def main(k):
    q = k.tier == "quick"
    use_cpu()
    x = machine()
    ms = [x, machine(profile="dev"), machine(std=False), machine(std=False, profile="dev"), machine(feat="+avx2"),
          machine(feat="+sse4.1"), machine(std=False, feat="+avx2"), machine(std=False, feat="+sse4.1"), neon(), neon("dev"),
          wasm(), wasm("dev"), machine(build.I686), machine(build.WASM)]
    prepare(ms, ms)
    lens = list(range(0, 37)) + [47, 63, 64, 65, 96, 100] if q else range(0, 140)
    for m in ms:
        for kind in m.kinds:
            ll = lens if m in (ms[0], ms[1], ms[8], ms[10]) or not q else [0, 1, 4, 17, 31, 32, 33, 64]
            for g in chunks(ll, 15):
                k.task("%s %s" % (m, kind), batch, chk, [(m, kind, n, n // 2 if n % 3 == 0 else 0,
                                                        ("p",) if kind != "p" else ()) for n in g])
            k.task("oneshot %s %s" % (m, kind), batch, oneshot, [(m, kind, n) for n in (0, 1, 5, 19, 31, 32, 40)])
            if (m, kind) != (x, "p"):
                k.task("cross %s %s" % (m, kind), batch, cross, [(m, kind, n) for n in (0, 3, 20, 33)])
    k.bounds = {"configurations": [str(m) for m in ms], "data length": str(list(lens)), "bytes": "all (symbolic)",
                "CPU features": "all valuations (symbolic)"}
    k.explanation = ("The hasher made by Default (Default::default, BuildHasherDefault, the default HighwayBuildHasher) is "
                     "executed symbolically next to one constructed with the zero key, on the same symbolic bytes: all three "
                     "results (and finish) are equal, within each type, against the portable type, and across targets.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1"]
