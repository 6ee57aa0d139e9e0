"""History-dependent memory: the bytes of a hasher's memory that differ between histories with equal
contents (unused buffer bytes, counters, generation numbers) are replaced by fresh symbols, standing for
any other history; results must not depend on them.  A dependence is confirmed by real histories."""
import symex
from lib import *


def image(h):
    out = []
    for i in range(h.size):
        v = symex.get(h.obj, h.off + i, 1)
        out.append(v if type(v) in (int, T) else None)
    return out


def varying(c, imgs):
    """offsets at which two of the images hold different defined bytes"""
    out = []
    a = imgs[0]
    ts = [v for im in imgs for v in im if type(v) is T]
    vs = variables(ts)
    envs = [{v.a[0]: c.rng.getrandbits(v.w) for v in vs} for _ in range(3)]
    for i in range(len(a)):
        for b in imgs[1:]:
            if a[i] is b[i] or a[i] is None or b[i] is None:
                continue
            if any(evaluate([a[i]], e) != evaluate([b[i]], e) for e in envs):
                out.append(i)
                break
    return out


def histories(kind, m, t):
    """name -> function(s, h, D): absorb D, giving the hasher"""
    def chunks_(sizes, how="append"):
        def f(s, h, D):
            stream(s, kind, h, cut(D, sizes), how)
            return h
        return f

    def hop(at):
        def f(s, h, D):
            s.append(kind, h, D[:at])
            o = s.raw(164, 1, "ckpt")
            s.call(kind + "_checkpoint", h, o)
            g = s.hasher(kind)
            s.call(kind + "_restore", o, g)
            s.append(kind, g, D[at:])
            return g
        return f

    def clone(at):
        def f(s, h, D):
            s.append(kind, h, D[:at])
            g = s.clone(kind, h)
            s.append(kind, g, D[at:])
            return g
        return f

    def clonefrom(at):
        def f(s, h, D):
            s.append(kind, h, D[:at])
            g = s.hasher(kind)
            s.call(kind + "_default", g)
            s.append(kind, g, [0x5a] * 21)
            s.call(kind + "_clonefrom", g, h)
            s.append(kind, g, D[at:])
            return g
        return f
    r = {"one append": chunks_((t,))}
    r["single bytes"] = chunks_((1,) * t)
    r["with empty appends"] = chunks_((0, 0, t, 0))
    r["halves"] = chunks_((t // 2, t - t // 2))
    if t > 33:
        r["31 first"] = chunks_((31, t - 31))
    if m.has(kind + "_hwrite"):
        r["Hasher::write"] = chunks_((t // 2, t - t // 2), "hwrite")
    return r, {"checkpoint": hop(t // 2), "late checkpoint": hop(t)}, {
        "clone": clone(t // 2), "late clone": clone(t), "clone_from": clonefrom(t)}


def start(s, kind, init, K, C):
    if init == "default":
        return s.default(kind)
    if init == "new":
        return s.new(kind, K)
    if init == "build":
        b = s.builder()
        s.call("b_new", s.key(K), b)
        h = s.hasher("d")
        s.call("b_build", b, h)
        return h
    return s.restore(kind, C)


def cpu_key():
    """the part of the path condition that says which CPU this is"""
    return frozenset(c.id for c in rt.pc if type(c) is T and all(v.a[0] in ("cpu0", "cpu1") for v in variables([c])))


def independent(c, m, kind, init, t, L, group):
    """group: 0 chunkings, 1 checkpoints, 2 clones"""
    K, D, E = kvars(), bvars(t), bvars(L, "e")
    C = ckpt_bytes(init) if type(init) is int else None
    hs = histories(kind, m, t)
    base = hs[0]["one append"]
    imgs = {}
    for n, f in [("one append", base)] + sorted(hs[group].items()):
        got = []

        def sc(s):
            s.use(m)
            h = f(s, start(s, kind, init, K, C), D)
            got.append((cpu_key(), image(h)))
        ps = c.run(sc, "I.")
        if any(p.end for p in ps):
            c.bump("image_runs_not_finished")
            continue
        for q, im in got:
            imgs.setdefault(q, []).append(im)
    hvs = {}
    for q, l in imgs.items():
        var_ = varying(c, l) if len(l) > 1 else []
        c.bump("image_bytes_replaced", len(var_))
        hv = hvs[q] = []
        # adjacent bytes make one integer
        i = 0
        while i < len(var_):
            n = next(k for k in (8, 4, 2, 1) if var_[i] % k == 0 and var_[i:i + k] == list(range(var_[i], var_[i] + k)))
            hv.append((var_[i], n, var("hist!%d" % var_[i], 8 * n)))
            i += n
    c.bump("image_scenarios")
    if not any(hvs.values()):
        return
    hv = [x for l in hvs.values() for x in l]

    def rest(s, h):
        if L:
            s.append(kind, h, E)
        s.fins(kind, h)
        s.ckpt(kind, h)

    def a(s):
        s.use(m)
        h = base(s, start(s, kind, init, K, C), D)
        for off, n, v in hvs.get(cpu_key(), ()):
            put(h.obj, h.off + off, n, v)
        rest(s, h)

    def b(s):
        s.use(m)
        h = base(s, start(s, kind, init, K, C), D)
        rest(s, h)
    A, B = c.run(a, "A."), c.run(b, "B.")

    def confirm(name, x, y, want, env, why, relation=None):
        return real(c, name, m, kind, init, t, L, group, hv, env, why)
    c.confirm = confirm
    try:
        c.compare("%s in %s from %s: %d bytes absorbed in any way, then %d" % (kind, m, init, t, L), A, B, hints=("ckpt",))
    finally:
        del c.confirm


def real(c, name, m, kind, init, t, L, group, hv, env, why):
    """look for a real history, suggested by the values, that gives another result"""
    ks = set()
    for _, n, v in hv:
        x = env.get(v.a[0], 0)
        for k in {x, x & 0xffff, x & 0xff, (1 << 8 * min(n, 2))}:
            for d in (-2, -1, 0, 1, 2):
                if 0 < k + d <= 66000:
                    ks.add(k + d)
    ks = sorted(ks | {254, 255, 256, 257, 258})
    r = random.Random(7)
    K = [env.get("k%d" % i, r.getrandbits(64)) for i in range(4)]
    C = None
    if type(init) is int:
        C = [x if type(x) is int else env.get(x.a[0], r.getrandbits(8)) for x in ckpt_bytes(init)]
    D = [env.get("d%d" % i, r.getrandbits(8)) for i in range(t)]
    E = [env.get("e%d" % i, r.getrandbits(8)) for i in range(L)]

    def run(f):
        s = Sess("", True)
        s.use(m)
        h = f(s)
        s.append(kind, h, E)
        s.fins(kind, h)
        s.ckpt(kind, h)
        return rp.replay(MACH, s.ops, env, {}, cpu_arg(env), 0xA5)

    def both(f, g, what):
        oa, ea, ta = run(f)
        ob, eb, tb = run(g)
        if ea or eb:
            diff = (ea, eb) if bool(ea) != bool(eb) else None
        else:
            diff = next(("%s: %s vs %s" % (l, hx(oa[l]), hx(ob.get(l))) for l in oa if oa[l] != ob.get(l)), None)
        if diff:
            c.violation(name, "%s; %s: natively %s" % (why, what, diff), env, ta[:60000], tb[:60000])
            return True
        return False
    big = []
    for n in ks:
        if n > 2000:
            if len(big) >= 8:
                continue
            big.append(n)
        data = D + [r.getrandbits(8) for _ in range(n)]

        def bytewise(s, total):
            h = start(s, kind, init, K, C)
            d = s.data(data[:total])
            for i in range(total):
                s.call(kind + "_append", h, d.at(i), 1)
            return h

        def whole(s, total):
            h = start(s, kind, init, K, C)
            s.append(kind, h, data[:total])
            return h

        def empties(s):
            h = start(s, kind, init, K, C)
            d = s.data([0])
            for _ in range(n):
                s.call(kind + "_append", h, d, 0)
            s.append(kind, h, D)
            return h

        def packets(s):
            h = start(s, kind, init, K, C)
            d = s.data(data[:n])
            for i in range(0, n, 32):
                s.call(kind + "_append", h, d.at(i), min(32, n - i))
            return h

        def copies(s, what):
            h = whole(s, t)
            g = s.hasher(kind)
            o = s.raw(164, 1, "ckpt")
            if what == "clonefrom":
                s.call(kind + "_default", g)
            for _ in range(n):
                if what == "hop":
                    s.call(kind + "_checkpoint", h, o)
                    s.call(kind + "_restore", o, g)
                elif what == "clone":
                    s.call(kind + "_clone", h, g)
                else:
                    s.call(kind + "_clonefrom", g, h)
                h, g = g, h
            return h
        try:
            if group == 0:
                if both(lambda s: bytewise(s, n), lambda s: whole(s, n), "%d appends of one byte and one of all" % n) or \
                   both(lambda s: empties(s), lambda s: whole(s, t), "%d empty appends first" % n) or \
                   n <= 2000 and both(lambda s: bytewise(s, n + t), lambda s: whole(s, n + t),
                                      "%d appends of one byte and one of all" % (n + t)) or \
                   both(lambda s: packets(s), lambda s: whole(s, n), "appends of 32 bytes, %d in all" % n):
                    return True
            for w in ((), ("hop",), ("clone", "clonefrom"))[group]:
                if both(lambda s: copies(s, w), lambda s: whole(s, t), "after %d times %s" % (n, w)):
                    return True
        except (rp.ReplayError, build.BuildError, OSError) as e:
            c.inconclusive.append("%s: replay failed: %s" % (name, str(e)[:200]))
            return False
    return False


def tasks(k, ms, group, q):
    for m in ms:
        it = []
        for kind in m.kinds:
            for init in ("new", "default", 13) + (("build",) if kind == "d" else ()):
                for t, L in ((3, 5), (37, 0), (37, 40), (63, 1), (40, 31), (64, 3)) if q else \
                        [(t, L) for t in (0, 1, 5, 16, 31, 32, 33, 37, 63, 64, 65, 70, 95) for L in (0, 1, 3, 16, 31, 32, 33, 70)]:
                    it.append((m, kind, init, t, L, group))
        for g in chunks(it, 12):
            k.task("images %s" % m, batch, independent, g)
