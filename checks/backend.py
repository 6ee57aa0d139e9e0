"""shared by C02, C03, C04: a backend returns what the portable hasher returns"""
from lib import *


def eq_parts(c, m, kinds, sizes, ck=False, ref="p"):
    """new(K); append the parts; all widths (and the checkpoint): kind vs portable"""
    K, D = kd(sum(sizes))
    parts = cut(D, sizes)

    def mk(k):
        def sc(s):
            s.use(m)
            h = s.new(k, K)
            stream(s, k, h, parts)
            s.fins(k, h)
            s.ckpt(k, h)
        return sc
    B = c.run(mk(ref), "B.")
    for k in kinds:
        c.compare("%s vs %s append%s in %s" % (k, ref, list(sizes), m), mk(k), B,
                  hints=() if ck else ("ckpt",))
        if c.violations:
            return


def eq_oneshot(c, m, kinds, n, ref="p"):
    K, D = kd(n)

    def mk(k, w):
        def sc(s):
            s.use(m)
            s.oneshot(k, s.new(k, K), D, w)
        return sc
    for w in ALLW:
        B = c.run(mk(ref, w), "B.")
        for k in kinds:
            c.compare("%s vs %s hash%d(%d) in %s" % (k, ref, w, n, m), mk(k, w), B)
            if c.violations:
                return


def eq_adapters(c, m, kinds, n, ref="p"):
    """the 64-bit value through Hasher::write/finish"""
    K, D = kd(n)

    def mk(k):
        def sc(s):
            s.use(m)
            h = s.new(k, K)
            s.append(k, h, D, "hwrite")
            s.finish(k, h)
        return sc
    B = c.run(mk(ref), "B.")
    for k in kinds:
        if m.has(k + "_hwrite"):
            c.compare("%s vs %s write(%d); finish in %s" % (k, ref, n, m), mk(k), B)


def eq_step(c, m, kinds, f, L, ref="p", direct=False):
    """lemma: from an arbitrary state with f pending bytes, append(L), finalise"""
    C, D = ckpt_bytes(f), bvars(L)

    def mk(k):
        def sc(s):
            s.use(m)
            h = s.restore(k, C)
            s.append(k, h, D)
            s.fins(k, h)
            s.ckpt(k, h)
        return sc
    B = c.run(mk(ref), "B.")
    for k in kinds:
        c.compare("step %s vs %s f=%d L=%d in %s" % (k, ref, f, L, m), mk(k), B, direct=direct)
        if c.violations:
            return


def hop(c, path, f, L, n0=0):
    """new on the first backend, f bytes, then checkpoint/restore along `path` with L bytes after
    each hop; results equal the uninterrupted portable hasher's.  path: [(machine, kind)...]"""
    K = kvars()
    m0, k0 = path[0]
    D = bvars(f + L * (len(path) - 1))

    def a(s):
        s.use(m0)
        h = s.new(k0, K)
        s.append(k0, h, D[:f])
        p = f
        for i, (m, k) in enumerate(path[1:]):
            ck = s.ckpt(path[i][1], h, "hop%d" % i)
            s.use(m)
            h = s.restore(k, ck, "hop%d" % i)
            s.append(k, h, D[p:p + L])
            p += L
        s.fins(path[-1][1], h)
        s.ckpt(path[-1][1], h)

    def b(s):
        s.use(path[n0][0] if n0 >= 0 else m0)
        k = path[n0][1] if n0 >= 0 else "p"
        h = s.new(k, K)
        s.append(k, h, D)
        s.fins(k, h)
    c.compare("hop %s f=%d L=%d" % (">".join("%s:%s" % (m.label, k) for m, k in path), f, L), a, b,
              hints=("ckpt",))
