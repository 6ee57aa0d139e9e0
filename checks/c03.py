"""C03: the NEON hasher equals the portable hasher; its checkpoints are interchangeable."""
import backend
from backend import *


def common(k, ms, kind, x86, q):
    """C03 and C04 share their plan: kind is the SIMD kind, ms its machines"""
    lens = list(range(0, 100 if q else 260))
    big = crit(ms[:1], [127, 128, 129, 255, 256, 257, 8225, 65539, 131077] if q else [511, 512, 513, 1023, 1024, 1025, 2048, 8225, 65535, 65536, 65539, 131077, 262147, 1048577])
    for i, m in enumerate(ms):
        kinds = [x for x in m.kinds if x != "p"]
        ll = lens + big if not i or not q else list(range(0, 66)) + [96]
        for g in chunks(ll, 6):
            k.task("append %s %s" % (m, g), batch, eq_parts, [(m, kinds, (n,), True) for n in g])
        ss = [(f, L) for f in range(1, 32) for L in sorted({1, 2, 31 - f, 32 - f, 33 - f, 40, 63 - f, 64 - f, 65})
              if L > 0]
        for g in chunks(ss, 20):
            k.task("split %s %s" % (m, g[:2]), batch, eq_parts, [(m, kinds, x, True) for x in g])
        for g in chunks(range(0, 70), 10):
            k.task("oneshot %s %s" % (m, g), batch, eq_oneshot, [(m, kinds, n) for n in g])
        for f in range(0, 32):
            Ls = sorted({0, 1, 31 - f, 32 - f, 64 - f, 70} if q else {*range(0, 34), 63 - f, 64 - f, 65 - f, 97})
            k.task("step %s f=%d" % (m, f), batch, eq_step, [(m, kinds, f, L, "p", True) for L in Ls if L >= 0])
    m = ms[0]
    others = [(m, "p"), (m, "d")] + x86
    hops = []
    for f in list(range(0, 34)) + [63, 64, 65]:
        for o in others:
            for L in (0, 3, 33 - f % 32):
                hops.append(([(m, kind), o], f, L))
                hops.append(([o, (m, kind)], f, L))
        hops.append(([(m, kind), others[f % len(others)], (m, kind), others[(f + 1) % len(others)]], f, 7 + f % 5))
    for g in chunks(hops, 16):
        k.task("hops %s" % (g[0][1:],), batch, hop, g)
    k.bounds = {"configurations": [str(m) for m in ms], "data length (one append)": "0..%d and %s" % (lens[-1], big),
                "two appends": "every fill 1..31 with lengths around the packet boundaries",
                "restored states": "every fill 0..31, arbitrary 1024-bit state, %d suffix lengths" % 6,
                "checkpoint hops": "every fill, to and from %s" % ["%s:%s" % (a, b) for a, b in others],
                "keys, bytes": "all (symbolic)"}


def main(k):
    q = k.tier == "quick"
    use_cpu()
    ms = [neon(), neon("dev"), machine(build.A64, "release", False)]
    x = machine()
    prepare(ms + [x], [ms[0], ms[1], x])
    common(k, ms, "n", [(x, "p"), (x, "s"), (x, "a")], q)
    k.explanation = ("The aarch64 LLVM IR of NeonHash and PortableHash (compiled for aarch64-unknown-linux-gnu) is executed "
                     "symbolically; every output word and every checkpoint byte of NeonHash is proved equal to PortableHash's "
                     "for symbolic key and bytes, and states restored across backends and targets finish identically.")
    k.assumptions = ["NEON intrinsics have the semantics of the LLVM operations rustc lowers them to (validated under qemu)"]
