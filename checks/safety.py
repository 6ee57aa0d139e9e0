"""shared by C08, C09, C11: paths that end in a panic or in an invalid access"""
from lib import *


def safe(c, name, sc, kinds=BAD, place=0, why=None, maxpaths=400, n=1):
    """no path of the scenario ends in one of `kinds`; a path that does is replayed natively.
    Returns the paths"""
    ps = c.run(sc, "A.", maxpaths)
    ok = True
    for p in ps:
        c.obl += n
        if p.end is None:
            c.done += n
            c.validate(p, p)
            continue
        k, info = p.end
        if k in kinds:
            if confirm(c, name, p, place):
                return ps
            c.inconclusive.append("%s: symbolic path ends with %s (%s), not reproduced natively" % (name, k, info[:200]))
        else:
            c.inconclusive.append("%s: path ends with %s (%s)" % (name, k, info[:200]))
        ok = False
    if not ps:
        c.inconclusive.append("%s: no feasible path" % name)
    return ps


def assignment(c, p):
    """values for every input of a path, satisfying its condition"""
    pc = [x for x in p.pc if type(x) is T]
    env = c.solver.model(pc + c.solver.facts_for(pc, [f for b in p.bases.values() for f in b[1]])) if pc else {}
    if env is None:
        return None
    roots = []
    for op in p.ops:
        if op[0] in ("init", "initw"):
            roots += [b for b in op[2]]
        elif op[0] == "call":
            roots += [a[1] for a in op[2] if a[0] == "val"]
    for v in variables([r for r in roots if type(r) is T]):
        env.setdefault(v.a[0], c.rng.getrandbits(v.w))
    return pin_cpu(env, p.pc)


def confirm(c, name, p, place=0):
    env = assignment(c, p)
    if env is None:
        return False
    places = (place,) if type(place) is int else place
    for pl in places:
        for fill in (0xA5, 0x3C):
            ops = [op[:5] + (pl,) + op[6:] if op[0] == "obj" and pl else op for op in p.ops]
            try:
                oa, ea, ta = rp.replay(MACH, ops, env, p.bases, cpu_arg(env), fill)
            except (rp.ReplayError, build.BuildError, OSError) as e:
                c.inconclusive.append("%s: replay failed: %s" % (name, str(e)[:200]))
                return False
            if ea:
                c.violation(name, "%s: %s; natively %s (%s)" % (p.end + ea), env, ta)
                return True
            if p.end[0] != "panic":
                # an access that stays unnoticed natively may still change a result
                if pl == places[0] and fill == 0xA5:
                    first = oa
                elif oa != first:
                    l = [l for l in oa if oa[l] != first.get(l)][:1]
                    c.violation(name, "%s: %s; natively the result depends on the placement or on neighbouring bytes: %s"
                                % (p.end + (l,)), env, ta)
                    return True
    return False


import replay as rp  # noqa: E402


def light(s, k, h, D):
    """append, one result, checkpoint, finish"""
    s.append(k, h, D)
    s.ckpt(k, h)
    if s.m.has(k + "_finish") and len(D) % 4 == 3:
        s.finish(k, h)
    else:
        s.fin(k, h, (64, 128, 256)[len(D) % 3])


def common(s, k, h, D):
    """append, the results, checkpoint, clone, finish, one-shot"""
    g = s.clone(k, h)
    s.append(k, g, D)
    s.fins(k, g)
    s.ckpt(k, g)
    s.oneshot(k, h, D, (64, 128, 256)[len(D) % 3])
    if s.m.has(k + "_finish"):
        s.append(k, h, D, "hwrite")
        s.finish(k, h)


def everything(s, k, h, D, adapters=True, debug=True):
    """every public operation on clones of one hasher"""
    s.fins(k, h)
    s.ckpt(k, h)
    g = s.clone(k, h)
    s.append(k, g, D)
    s.fins(k, g, "a")
    s.ckpt(k, g, "ackpt")
    s.call(k + "_clonefrom", g, h)
    s.oneshot(k, h, D, 64)
    s.oneshot(k, h, D, 128)
    s.oneshot(k, h, D, 256)
    if debug:
        s.debug(k, g, flags=False)
    if adapters and s.m.has(k + "_hwrite"):
        s.append(k, g, D, "hwrite")
        s.finish(k, g)
        for t, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64),
                     ("usize", 8 * s.m.prog.ptr), ("isize", 8 * s.m.prog.ptr)):
            s.call("%s_w%s" % (k, t), g, var("w" + t, w))
        for t in ("u128", "i128"):
            s.call("%s_w%s" % (k, t), g, var("w%slo" % t, 64), var("w%shi" % t, 64))
        s.finish(k, g, "finish2")
        if s.m.has(k + "_iowrite"):
            s.append(k, g, D, "iowrite")
            s.append(k, g, D, "iowriteall")
            s.call(k + "_ioflush", g)
            d = s.data(D)
            o = s.raw(8, 8, "n")
            s.call(k + "_iowritev", g, d, len(D), d, len(D), o)
            s.finish(k, g, "finish3")
        s.call(k + "_hashval", g, var("hv", 32), s.data(D), len(D))
        s.finish(k, g, "finish4")
    s.ckpt(k, g, "last")
    s.call(k + "_drop", g)
