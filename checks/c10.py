"""C10: the dispatcher picks a permitted backend, the same one however it is made."""
from safety import *

BACK = (("AvxHash", "avx2"), ("SseHash", "sse4.1"), ("NeonHash", "neon"), ("WasmHash", "simd128"), ("PortableHash", None))
WAYS = ("new", "default", "bhdefault", "restore", "clone", "clonefrom", "build", "dbuild", "rclone", "moved")


def make(s, way, K, C, Z=(0, 0, 0, 0)):
    if way == "new":
        return s.new("d", K)
    if way == "default":
        return s.default("d")
    if way == "bhdefault":
        h = s.hasher("d")
        s.call("d_bhdefault", h)
        return h
    if way == "restore":
        return s.restore("d", C)
    if way == "clone":
        return s.clone("d", s.new("d", K))
    if way == "rclone":
        return s.clone("d", s.restore("d", C))
    if way == "clonefrom":
        h = s.default("d")
        s.call("d_clonefrom", h, s.new("d", K))
        return h
    b = s.builder()
    if way == "build":
        s.call("b_new", s.key(K), b)
    else:
        s.call("b_default", b)
    h = s.hasher("d")
    s.call("b_build", b, h)
    return h


def start_of(way):
    """the portable counterpart"""
    return "restore" if way in ("restore", "rclone") else "zero" if way in ("default", "bhdefault", "dbuild") else "new"


def backend_of(p):
    """type of the active backend, from the Debug implementation that ran"""
    r = [b for b, _ in BACK if any(b in t for t in p.dbg)]
    return r[0] if len(r) == 1 else None


def static_features(m):
    """target features that the configuration enables at compile time"""
    c = m.cfg
    cmd = [build.RUSTC, "--print", "cfg"] + c.flags()
    out = build.run(cmd).stdout.decode()
    return set(re.findall(r'target_feature="([^"]+)"', out))


def permitted(m, feats, b):
    """1-bit value: may backend b run here?"""
    f = dict(BACK)[b]
    if f is None or f in feats:
        return 1
    if m.cfg.std and m.cfg.target == build.X64:
        return cpu_bit("avx2" if f == "avx2" else "sse41")
    return 0


def selection(c, m, feats, f, n):
    K, C, D = kvars(), ckpt_bytes(f), bvars(n)
    paths = {}
    for way in WAYS:
        if way == "moved" or (way == "bhdefault" and not m.has("d_bhdefault")):
            continue

        def sc(s):
            s.use(m)
            h = make(s, way, K, C)
            s.debug("d", h, flags=False)
            textop = s.ops[-1]
            s.append("d", h, D)
            s.fins("d", h)
            s.ckpt("d", h)
            s.debug("d", h, flags=False)
            return textop

        def ref(s):
            s.use(m)
            st = start_of(way)
            h = s.restore("p", C) if st == "restore" else s.new("p", K if st == "new" else [0] * 4)
            s.append("p", h, D)
            s.fins("p", h)
            s.ckpt("p", h)
        ps = c.run(sc, "A.")
        paths[way] = ps
        for p in ps:
            c.obl += 1
            if p.end:
                c.inconclusive.append("%s %s: path ends with %s (%s)" % (m, way, p.end[0], p.end[1][:150]))
                continue
            b = backend_of(p)
            if b is None:
                c.inconclusive.append("%s %s: the active backend is not visible (%s)" % (m, way, sorted(set(p.dbg))[:4]))
                continue
            # the selection must be permitted on every CPU of this path
            bad = not_(1, permitted(m, feats, b))
            if type(bad) is int and not bad or not c.solver.feasible(p.pc, [bad] if type(bad) is T else []):
                c.done += 1
                continue
            env = c.solver.model([x for x in p.pc if type(x) is T] + ([bad] if type(bad) is T else []))
            if env is not None:
                pin_cpu(env, p.pc + [bad])
            if env is not None and shown(c, m, p, env, b, way):
                c.violation("%s: selection by %s" % (m, way), "%s is used although this CPU/configuration does not permit it"
                            % b, env, rp_text(c, p, env))
                return
            c.inconclusive.append("%s %s: %s seems not permitted; not reproduced natively" % (m, way, b))
        c.compare("%s: dispatcher made by %s vs portable, count %s, %d bytes" % (m, way, f, n), ps, c.run(ref, "B."),
                  hints=("ckpt",))
        if c.violations:
            return
    # the same selection whichever way was taken
    base = paths["new"]
    for way, ps in paths.items():
        for x in base:
            for y in ps:
                if x.end or y.end or not backend_of(x) or not backend_of(y):
                    continue
                if not c.solver.feasible(x.pc, [t for t in y.pc if type(t) is T]):
                    continue
                c.obl += 1
                if backend_of(x) == backend_of(y):
                    c.done += 1
                    continue
                env = c.solver.model([t for t in x.pc + y.pc if type(t) is T]) or {}
                pin_cpu(env, x.pc + y.pc)
                if shown(c, m, x, env, backend_of(x), "new") and shown(c, m, y, env, backend_of(y), way):
                    c.violation("%s: selection by new and by %s" % (m, way), "%s vs %s" % (backend_of(x), backend_of(y)),
                                env, rp_text(c, x, env), rp_text(c, y, env))
                    return
                c.inconclusive.append("%s: %s picks %s, new picks %s; not reproduced natively" % (
                    m, way, backend_of(y), backend_of(x)))


def fillenv(c, p, env):
    env = dict(env)
    roots = [b for op in p.ops if op[0] in ("init", "initw") for b in op[2]]
    for v in variables([r for r in roots if type(r) is T]):
        env.setdefault(v.a[0], c.rng.getrandbits(v.w))
    return env


def texted(p):
    """the trace with a dump of what Debug printed"""
    ops = []
    for op in p.ops:
        ops.append(op)
        if op[0] == "call" and op[1].endswith("_dbgtext"):
            ops.append(("read", "text%d" % op[3], op[2][2][1], 0, 512, 1))
    return ops


def shown(c, m, p, env, b, way):
    """does the real code, natively, print backend b?"""
    env = fillenv(c, p, env)
    cpu = cpu_arg(env) if m.cfg.target == build.X64 else None
    try:
        o, e, t = rp.replay(MACH, texted(p), env, p.bases, cpu)
    except (rp.ReplayError, build.BuildError, OSError) as x:
        c.inconclusive.append("%s: replay failed: %s" % (way, str(x)[:200]))
        return False
    for l, v in o.items():
        if l.startswith("text"):
            return b in bytes(v).decode("latin1")
    # the selected backend's instructions may not exist on the emulated CPU
    return bool(e) and "crash" in e[0] and cpu is not None


def rp_text(c, p, env):
    try:
        return rp.replay(MACH, texted(p), fillenv(c, p, env), p.bases, cpu_arg(env))[2]
    except (rp.ReplayError, build.BuildError, OSError) as x:
        return str(x)


def probing(c, m, feats):
    """SseHash::new, AvxHash::new, ::from_checkpoint return a hasher only if the feature is detected"""
    K, C, D = kvars(), ckpt_bytes(9), bvars(5)
    for k, b in (("s", "SseHash"), ("a", "AvxHash")):
        for fn in ("trynew", "tryrestore"):
            def sc(s):
                s.use(m)
                h = s.hasher(k)
                if fn == "trynew":
                    r = s.call("%s_%s" % (k, fn), s.key(K), h)
                else:
                    r = s.call("%s_%s" % (k, fn), s.data(C, 1, "ckpt"), h)
                s.ret("some", r, 8)
                if rt.branch(not_(1, eq(8, r, 0))) if type(r) is T else r:
                    s.append(k, h, D)
                    s.fins(k, h)
                return r
            for p in c.run(sc, "A."):
                c.obl += 1
                if p.end:
                    c.inconclusive.append("%s %s_%s: path ends with %s (%s)" % ((m, k, fn) + p.end))
                    continue
                some = not_(1, eq(8, p.value, 0))
                bad = and_(1, some, not_(1, permitted(m, feats, b)))
                if type(bad) is int and not bad or not c.solver.feasible(p.pc, [bad] if type(bad) is T else []):
                    c.done += 1
                    continue
                env = c.solver.model([x for x in p.pc if type(x) is T] + ([bad] if type(bad) is T else []))
                if env is None:
                    continue
                env = pin_cpu(fillenv(c, p, env), p.pc + [bad])
                o, e, t = c.native_obs(p, env)
                if o.get("some", [0])[0] & 0xff:
                    c.violation("%s: %s of %s" % (m, fn, b), "returns a hasher although the CPU feature is not detected",
                                env, t)
                    return
                c.inconclusive.append("%s %s_%s: not reproduced natively" % (m, k, fn))

            def ref(s):
                s.use(m)
                h = s.new("p", K) if fn == "trynew" else s.restore("p", C)
                s.append("p", h, D)
                s.fins("p", h)
                s.check("some", 8, 1)
            A = [p for p in c.run(sc, "A.") if p.end or p.value != 0]
            if A:
                c.compare("%s: hasher returned by %s of %s vs portable" % (m, fn, b), A, c.run(ref, "B."))
            if c.violations:
                return


def feats_of(c, m, fn, *a):
    fn(c, m, static_features(m), *a)


def main(k):
    q = k.tier == "quick"
    use_cpu()
    ms = []
    for pr in ("release", "dev"):
        for std in (True, False):
            for feat, cpu in (("", ""), ("+sse4.1", ""), ("+avx2", ""), ("+sse4.1,-avx2", ""), ("", "native"), ("", "x86-64-v2"),
                              ("", "x86-64-v3")):
                if cpu.startswith("x86-64") and q and not std:
                    continue
                ms.append(machine(profile=pr, std=std, feat=feat, cpu=cpu))
            ms += [neon(pr) if std else machine(build.A64, pr, False), wasm(pr) if std else machine(build.WASM, pr, False, "+simd128"),
                   machine(build.WASM, pr, std), machine(build.I686, pr, std)]
    main_ = [machine(), machine(profile="dev")]
    prepare(ms, main_ if q else ms)
    for m in ms:
        f = static_features(m)
        sel = [(None, 0)] if False else [(0, 37), (17, 20)] + ([(31, 1), (5, 0)] if m in main_ else [])
        if not q:
            sel = [(a, b) for a in (0, 1, 3, 13, 16, 19, 31) for b in (0, 1, 5, 17, 31, 32, 33, 64)]
        for a in sel:
            k.task("selection %s %s" % (m, a), selection, m, f, *a)
        if m.cfg.target == build.X64:
            k.task("constructors %s" % m, probing, m, f)
    k.bounds = {"configurations": [str(m) for m in ms], "CPU features": "the detected-feature cache is symbolic (all valuations of "
                "every feature bit with AVX2 => SSE4.1)", "ways": list(WAYS[:-1])}
    k.explanation = ("In every configuration the dispatcher is made in each of nine ways with symbolic CPU features; the backend "
                     "whose Debug implementation runs is the selection of that path.  z3 decides that no CPU on the path lacks the "
                     "backend's feature (unless the configuration enables it at compile time), that compatible paths of two ways "
                     "select the same backend, that results equal the portable hasher's, and that the probing constructors return "
                     "a hasher only under the detected feature.")
    k.assumptions = ["a CPU that reports AVX2 also reports SSE4.1",
                     "picking the portable hasher where SIMD would be permitted is not a violation if every way agrees"]
