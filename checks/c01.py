"""C01: the portable hasher computes HighwayHash (oracle: engine/spec.py)."""
import spec
from lib import *


def direct(c, m, n, split=None):
    """new(K); append(n symbolic bytes) [in two calls]; every width vs the specification"""
    K, D = kd(n)

    def sc(s):
        s.use(m)
        h = s.new("p", K)
        if split is None:
            s.append("p", h, D)
        else:
            s.append("p", h, D[:split])
            s.append("p", h, D[split:])
        s.fins("p", h)
        s.ckpt("p", h)
    st = spec.reset(K)
    pend = spec.absorb(st, [], D)
    exp = {"fin%d" % w: [(64, x) for x in spec.finish(st, pend, w)] for w in (64, 128, 256)}
    exp["ckpt"] = [(8, x) for x in spec.checkpoint_of(st, pend)]
    c.compare("p.append(%d%s) in %s" % (n, "" if split is None else " split %d" % split, m), sc, exp,
              hints=("ckpt",))


def oneshot(c, m, n, w):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        h = s.new("p", K)
        s.oneshot("p", h, D, w)
    exp = {"hash%d" % w: [(64, x) for x in spec.hash(K, D, w)]}
    c.compare("p.hash%d(%d) in %s" % (w, n, m), sc, exp)


def step(c, m, f, L):
    """lemma: from an arbitrary state with f pending bytes, append(L) and finalise as specified"""
    C = ckpt_bytes(f)
    D = bvars(L)

    def sc(s):
        s.use(m)
        h = s.restore("p", C)
        s.append("p", h, D)
        s.fins("p", h)
    st = spec.state_of_checkpoint(C)
    pend = spec.absorb(st, C[128:128 + f], D)
    exp = {"fin%d" % w: [(64, x) for x in spec.finish(st, pend, w)] for w in (64, 128, 256)}
    c.compare("step f=%d L=%d in %s" % (f, L, m), sc, exp, direct=False)


def main(k):
    q = k.tier == "quick"
    nvec = spec.selftest()
    rel, dev = machine(), machine(profile="dev")
    chk = machine(profile="relchk")
    ms = [rel, dev, machine(std=False), chk]
    prepare(ms, ms)
    lens = list(range(0, 100 if q else 260))
    big = crit([rel], [127, 128, 129, 159, 160, 161, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 8225, 65539, 131077]) if q else \
        crit([rel], list(range(260, 1100, 7)) + [1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8225, 65535, 65536, 65539, 131077, 262147, 1048577])
    for m in ms:
        ll = lens + big if m in (rel, dev) or not q else lens[:70] + [96, 127, 128, 129]
        for g in chunks(ll, 6):
            k.task("direct %s %s" % (m, g), batch, direct, [(m, n) for n in g])
    for w in (64, 128, 256):
        ll = lens if not q else list(range(0, 68))
        for m in (rel, dev):
            for g in chunks(ll, 12):
                k.task("oneshot%d %s %s" % (w, m, g), batch, oneshot, [(m, n, w) for n in g])
    # steps from an arbitrary state
    for f in range(32):
        Ls = list(range(0, 68)) + [95, 96, 97, 127, 128, 129] if not q else \
            sorted({0, 1, 3, 31 - f, 32 - f, 33 - f, 63 - f, 64 - f, 65 - f, 96, 100})
        k.task("step f=%d" % f, batch, step, [(rel, f, L) for L in Ls if L >= 0])
    k.bounds = {"data length (direct, one append)": "0..%d and %s" % (lens[-1], big),
                "one-shot helpers": "0..%d" % ll[-1],
                "steps": "every pending fill 0..31 from an arbitrary 1024-bit state",
                "keys and bytes": "all (symbolic)"}
    k.explanation = ("Symbolic execution of PortableHash's LLVM IR (new, append, hash64/128/256, finalize64/128/256) for "
                     "symbolic 256-bit key and symbolic data bytes; every output word equals the HighwayHash specification "
                     "term (written from Google's C reference and checked against %d published vectors)." % nvec)
    k.assumptions = ["lengths beyond the stated bound are covered only through the step lemmas",
                     "the specification in engine/spec.py is HighwayHash (checked on the published vectors)"]
