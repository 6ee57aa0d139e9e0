"""C02: on x86_64 the SSE4.1, AVX2 and auto-selecting hashers equal the portable hasher."""
from backend import *


def main(k):
    q = k.tier == "quick"
    use_cpu()
    ms = [machine(profile=pr, std=st, feat=ft, cpu=cpu) for pr in ("release", "dev") for st in (True, False)
          for ft, cpu in (("", ""), ("+sse4.1", ""), ("+avx2", ""), ("", "native"))]
    main_ms = [m for m in ms if m.cfg.std and not m.cfg.feat and not m.cfg.cpu]
    prepare(ms, ms if not q else main_ms)
    lens = list(range(0, 70 if q else 200))
    big = crit(main_ms[:1], [95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 8225, 65539, 131077] if q else
               [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 8225, 65535, 65536, 65539, 131077, 262147, 1048577])
    for m in ms:
        kinds = [x for x in m.kinds if x != "p"]
        mm = m in main_ms
        ll = lens + big if mm or not q else list(range(0, 34)) + [47, 48, 49, 63, 64, 65, 96]
        for g in chunks(ll, 8):
            k.task("append %s %s" % (m, g), batch, eq_parts, [(m, kinds, (n,)) for n in g])
        ss = [(f, L) for f in range(1, 32) for L in sorted({1, 31 - f, 32 - f, 33 - f, 40, 64 - f}) if L > 0]
        if not mm and q:
            ss = ss[::4]
        for g in chunks(ss, 20):
            k.task("split %s %s" % (m, g[:2]), batch, eq_parts, [(m, kinds, x) for x in g])
        oo = list(range(0, 34)) + [48, 63, 64, 65, 100] if mm else [0, 1, 15, 16, 17, 31, 32, 33]
        for g in chunks(oo, 13):
            k.task("oneshot %s %s" % (m, g), batch, eq_oneshot, [(m, kinds, n) for n in g])
        for g in chunks([0, 5, 17, 32, 37], 5):
            k.task("adapters %s %s" % (m, g), batch, eq_adapters, [(m, kinds, n) for n in g])
        for f in range(0, 32) if mm or not q else (0, 13, 31):
            Ls = sorted(({0, 1, 32 - f, 64 - f, 70} if mm else {32 - f, 70}) if q else
                        {*range(0, 34), 63 - f, 64 - f, 65 - f, 97})
            k.task("step %s f=%d" % (m, f), batch, eq_step, [(m, kinds, f, L) for L in Ls if L >= 0])
    k.bounds = {"configurations": [str(m) for m in ms], "data length (one append)": "0..%d and %s" % (lens[-1], big),
                "two appends": "every fill 1..31 with lengths around the packet boundary",
                "keys, bytes": "all (symbolic)", "CPU features seen by the dispatching hasher":
                "all valuations of the detected-feature cache (symbolic)",
                "step lemmas": "every fill 0..31 from an arbitrary 1024-bit state"}
    k.explanation = ("The LLVM IR of every x86_64 configuration is executed symbolically for symbolic key and bytes; each "
                     "output word of the SSE4.1, AVX2 and auto-selecting hashers is proved equal to the portable hasher's "
                     "word of the same configuration, for all three widths.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1",
                     "x86 intrinsics have the semantics of the LLVM operations rustc lowers them to (validated natively)"]
