"""C08: no safe public operation panics, in any profile; optimised builds have no panic path."""
from safety import *
import nopanic


def fresh(c, m, k, n, how, ops=everything):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        h = s.default(k) if how == "default" else s.new(k, K)
        s.append(k, h, D)
        ops(s, k, h, D)
    safe(c, "%s %s: %s, append(%d), every operation" % (m, k, how, n), sc, ("panic",))


def rest(c, m, k, f, L, ops=everything):
    """f: the count field, or None for every value above 31"""
    C, D = ckpt_over() if f is None else ckpt_bytes(f), bvars(L)

    def sc(s):
        s.use(m)
        if f is None:
            assume_over(C)
        h = s.restore(k, C)
        ops(s, k, h, D)
        g = s.restore(k, s.ckpt(k, h, "c2"), "c2")
        s.append(k, g, D)
        s.fins(k, g, "g")
    safe(c, "%s %s: restore(arbitrary bytes, count %s), every operation with %d bytes" % (m, k, "> 31" if f is None else f, L),
         sc, ("panic",))


def builder(c, m, n):
    K, D = kd(n)

    def sc(s):
        s.use(m)
        for how in ("b_new", "b_default"):
            b = s.builder()
            if how == "b_new":
                s.call(how, s.key(K), b)
            else:
                s.call(how, b)
            h = s.hasher("d")
            s.call("b_build", b, h)
            s.append("d", h, D, "hwrite")
            s.finish("d", h, how)
            o = s.raw(8, 8, "o")
            s.call("b_hashone", b, var("hv", 32), s.data(D), n, o)
        for k in "sa":
            if s.m.has(k + "_trynew"):
                h = s.hasher(k)
                s.call(k + "_trynew", s.key(K), h)
                h = s.hasher(k)
                s.call(k + "_tryrestore", s.data(ckpt_bytes(7), 1, "ckpt"), h)
    safe(c, "%s: builder and probing constructors, %d bytes" % (m, n), sc, ("panic",))


def main(k):
    q = k.tier == "quick"
    use_cpu()
    x, xd, xc = machine(), machine(profile="dev"), machine(profile="relchk")
    nd, wd, nc, wc = neon("dev"), wasm("dev"), neon("relchk"), wasm("relchk")
    devs = [xd, nd, wd, machine(std=False, profile="dev"), machine(profile="dev", feat="+avx2"),
            machine(profile="dev", feat="+sse4.1"), machine(build.I686, "dev")]
    dense = [xc, nc, wc]
    rels = [x, machine(std=False), machine(feat="+avx2"), machine(feat="+sse4.1"), neon(), wasm(), machine(build.I686)]
    ms = devs + dense + rels
    stat = rels + [machine(std=False, feat="+avx2"), machine(std=False, feat="+sse4.1")]
    prepare(ms + stat, ms if not q else [x, xc, xd, nd, wd])
    for m in stat:
        k.task("panic paths left in optimised code, %s" % m, nopanic.static, [m.cfg.name()])
    big = [n for n in crit([xc], [257]) if n > 130]
    for m in ms:
        for kind in m.kinds:
            if kind in "pd" and m.cfg.target == build.A64 and q and m.cfg.profile != "relchk":
                continue
            todo = []
            if not q:
                todo = [(n, common) for n in range(0, 131)] + [(n, everything) for n in (0, 1, 5, 31, 32, 33, 64)]
            elif m in dense and kind != "d":
                todo = [(n, light) for n in range(0, 68)] + [(n, common) for n in (1, 19, 31, 32, 33, 96, 127, 128)]
                todo += [(n, everything) for n in (5, 32)]
            elif m in devs[:3] and kind != "d":
                todo = [(n, light) for n in range(0, 34)] + [(n, common) for n in (19, 32, 64)]
                todo += [(5, everything)]
            else:
                todo = [(n, light) for n in (0, 1, 2, 3, 13, 16, 19, 20, 31, 32, 33, 64)] + [(35, common)]
            for g in chunks(todo, 12):
                k.task("fresh %s %s %s" % (m, kind, [n for n, _ in g]), batch, fresh,
                       [(m, kind, n, "new" if n % 4 else "default", f) for n, f in g])
            if m in dense and (kind in "p" or not q):
                k.task("long %s %s" % (m, kind), batch, fresh, [(m, kind, n, "new", light) for n in big])
            todo = []
            for f in list(range(0, 32)) + [None]:
                b = 31 if f is None else f
                if not q:
                    todo += [(f, L, common) for L in (0, 1, 31 - b, 32 - b, 33 - b, 31, 32, 33, 64 - b, 64, 65)]
                    if f in (0, 17, 31, None):
                        todo += [(f, 33, everything)]
                elif m in dense and (kind != "d" or f in (0, 17, 31, None)):
                    todo += [(f, L, light) for L in (0, 32 - b, 33) if L or f is None or f % 3 == 0]
                    if f is None or f in (17, 31):
                        todo += [(f, 3, everything), (f, 32 - b, common)]
                elif (m in devs[:3] and kind != "d") or f in (0, 3, 17, 31, None):
                    todo += [(f, 32 - b if f and f % 2 else 0, light)]
            for g in chunks(sorted(set(todo), key=str), 12):
                k.task("restore %s %s %s" % (m, kind, [y[:2] for y in g[:3]]), batch, rest, [(m, kind) + y for y in g])
        k.task("builder %s" % m, batch, builder, [(m, n) for n in (0, 1, 7, 31, 32, 33, 70)])
    k.bounds = {"configurations": [str(m) for m in ms], "appended bytes": "0..67, 96, 127, 128, 257 and code thresholds "
                "(quick) / 0..130 (thorough)", "restored checkpoints": "1312 arbitrary bits; the count field covers every u32: "
                "each value 0..31, and all larger ones as one symbolic class", "CPU features": "all valuations (symbolic)"}
    k.explanation = ("Every public operation is executed symbolically in builds with overflow checks and debug assertions "
                     "(and in optimised builds), on hashers made by every constructor and restored from arbitrary bytes; z3 "
                     "decides whether a panic branch is feasible.  For optimised code a second, static obligation: no panic "
                     "call is reachable in the IR call graph from an operation; a remaining edge is confirmed by linking the "
                     "operation the way the no_panic crate does, with the project's release profile.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1",
                     "contracts of unsafe constructors are respected (their CPU feature is present)"]
