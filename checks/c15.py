"""C15: hashers are isolated: no hidden shared state."""
import random
from safety import *


class Actor:
    """one hasher with its own key and bytes; every step is one operation"""

    def __init__(self, name, kind, script, m, init="new", mem=None, thread=0):
        self.name, self.kind, self.script, self.m, self.init, self.mem = name, kind, script, m, init, mem
        self.thread = thread
        self.steps = 1 + len(script)

    def reset(self):
        self.pos = self.used = self.nobs = 0
        self.h = None

    def step(self, s, shared):
        i = self.pos
        self.pos += 1
        s.use(self.m)
        if shared.get("threads"):
            s.thread(self.thread + (i if shared["threads"] == "migrate" else 0))
        k, n = self.kind, self.name
        if i == 0:
            self.begin(s, shared)
            return
        op = self.script[i - 1]
        if type(op) is int:
            D = bvars(op, "d" + n, self.used)
            self.used += op
            s.append(k, self.h, D)
        elif type(op) is tuple:
            D = bvars(op[1], "d" + n, self.used)
            self.used += op[1]
            s.append(k, self.h, D, op[0])
        elif op == "F":
            s.fins(k, self.h, "%s%d" % (n, self.nobs))
        elif op == "f":
            s.finish(k, self.h, "%s%df" % (n, self.nobs))
        elif op == "C":
            s.ckpt(k, self.h, "%s%dc" % (n, self.nobs))
        elif op == "H":
            o = s.raw(164, 1, "ckpt")
            s.call(k + "_checkpoint", self.h, o)
            g = s.hasher(k)
            s.call(k + "_restore", o, g)
            self.h = g
        elif op == "L":
            self.h = s.clone(k, self.h)
        elif op == "M":
            self.h = s.move(self.h)
        elif op == "D":
            s.debug(k, self.h, 0, flags=False)
        elif op == "X":
            s.call(k + "_drop", self.h)
        elif op == "1":
            # one-shot on a clone, with the same bytes the hasher gets next
            g = s.clone(k, self.h)
            s.oneshot(k, g, bvars(37, "d" + n, self.used), 128, "%s%do" % (n, self.nobs))
        else:
            raise ValueError(op)
        self.nobs += 1

    def begin(self, s, shared):
        k, n = self.kind, self.name
        mem = shared.get(self.mem) if self.mem else None
        h = mem or s.hasher(k)
        if self.mem and mem is None:
            shared[self.mem] = h
        if self.init == "new":
            s.call(k + "_new", s.key(kvars("k" + n)), h)
        elif self.init == "default":
            s.call(k + "_default", h)
        elif type(self.init) is str and self.init.startswith("build"):
            b = shared.get(self.init)
            if b is None:
                b = shared[self.init] = s.builder()
                s.call("b_new", s.key(kvars("kb" + self.init)), b)
            s.call("b_build", b, h)
        else:
            s.call(k + "_restore", s.data(ckpt_bytes(self.init, "c" + n), 1, "ckpt"), h)
        self.h = h

    def done(self):
        return self.pos >= self.steps


def mixed(actors, order, threads=None, after=()):
    """run the actors' steps in the given order (indices), the rest round robin"""
    def sc(s):
        sh = {"threads": threads}
        for a in actors:
            a.reset()
        for i in order:
            if not actors[i].done():
                actors[i].step(s, sh)
        while not all(a.done() for a in actors):
            for a in actors:
                if not a.done():
                    a.step(s, sh)
    return sc


def isolated(a):
    def sc(s):
        a.reset()
        while not a.done():
            a.step(s, {})
    return sc


def pat(a):
    return re.compile(r"%s\d" % a.name)


def interleave(c, what, actors, order, threads=None):
    A = c.run(mixed(actors, order, threads), "A.")
    count(c, A)
    for a in actors:
        B = c.run(isolated(a), "B.")
        count(c, B)
        ls = {l for p in A + B for l in p.obs if pat(a).match(l)}
        if not c.compare("%s: %s in %s among others = alone" % (what, a.name, a.m), A, B, labels=ls):
            return


def count(c, ps):
    for p in ps:
        c.bump("paths_without_access_to_shared_memory" if not p.greads and not p.gwrites else
               "paths_with_access_to_shared_memory")
        for d in (p.greads, p.gwrites):
            for g in d:
                l = c.extra.setdefault("shared_memory", [])
                if g not in l and len(l) < 8:
                    l.append(g)


def preempted(c, what, m, a, b, at, warm=None):
    """step `at` of actor a is interrupted just before each access it makes to shared mutable
    memory, and b runs from start to end there"""
    j = 0
    ia = ib = None
    while j < (24 if c.tier == "quick" else 80):
        n = [0]

        def sc(s):
            for x in (a, b, warm):
                if x:
                    x.reset()
            sh = {}
            while warm and not warm.done():
                warm.step(s, sh)
            while a.pos < at:
                a.step(s, sh)

            s.use(a.m)

            def other():
                while not b.done():
                    b.step(s, sh)
            n[0] = max(n[0], s.preempted(j, other, lambda: a.step(s, sh)))
            while not a.done():
                a.step(s, sh)
        n[0] = -1
        A = c.run(sc, "A.")
        if n[0] < 0:
            break
        c.bump("preemption_points")
        for x in (a, b):
            B = c.run(isolated(x), "B.")
            ls = {l for p in A + B for l in p.obs if pat(x).match(l)}
            if not c.compare("%s, %s preempted at access %d of step %d in %s: %s = alone" % (
                    what, a.name, j, at, m, x.name), A, B, labels=ls):
                return
        j += 1
    if not j:
        c.bump("steps_without_shared_access")


def worn(c, m, k, init, script):
    """the crate's own mutable static memory holds arbitrary values when the hasher is made (what earlier
    hashers may have left there); natively: the same operations over and over in one process"""
    a = Actor("a", k, script, m, init)
    B = c.run(isolated(a), "B.")
    names = {g for p in B for g in p.gwrites}
    if not names:
        c.bump("scenarios_without_writes_to_static_memory")
        return
    hav = {g: [] for g in names}
    rt.havoc = hav
    try:
        A = c.run(isolated(a), "A.")
    finally:
        rt.havoc = {}
    vs = {v for l in hav.values() for v in l}
    small = [ult(v.w, v, 70000) for v in vs if v.w > 16]
    for p in A:
        p.pc = p.pc + [x for x in small if x not in p.pc]

    def confirm(name, x, y, want, env, why, relation=None):
        env = dict(env)
        y = [p for p in B if not p.end]
        if not y:
            return False
        n = min(70000, max([env.get(v.a[0], 0) for v in vs] + [300]) + 3)
        pc = [t for t in y[0].pc if type(t) is T]
        if pc:
            env.update(c.solver.model(pc) or {})
        for v in variables([b for op in y[0].ops if op[0] in ("init", "initw") for b in op[2] if type(b) is T]):
            env.setdefault(v.a[0], c.rng.getrandbits(v.w))
        pin_cpu(env, pc)
        try:
            i, u, v, t = rp.repeat(MACH, y[0].ops, env, y[0].bases, n, cpu_arg(env))
        except (rp.ReplayError, build.BuildError, OSError) as e:
            c.inconclusive.append("%s: replay failed: %s" % (name, str(e)[:200]))
            return False
        if i is None:
            return False
        c.violation(name, "the same operations on a new hasher give another result the %d. time: %s vs %s"
                    % (i + 1, u[:6], v[:6]), env, t)
        return True
    c.confirm = confirm
    try:
        c.compare("%s made by %s in %s, %s, after any history of the static memory = alone" % (k, init, m, script), A, B)
    finally:
        del c.confirm


SCRIPTS = [(33, "F", "C", 9, "F"), (5, "C", 40, "F"), (0, "F", 64, "1", 3, "F"), (31, "L", 1, "F", 32, "F", "C"),
           (7, "H", 30, "M", 2, "F"), (96, "F"), (1, 1, 30, "C", 65, "F"), ("F", 17, "F", "X"), (48, "D", 16, "F")]


def rnd(rng, m, k):
    ops = []
    for _ in range(rng.randint(3, 6)):
        r = rng.random()
        ops.append(rng.choice((1, 3, 8, 15, 31, 32, 33, 47, 64, 70)) if r < .5 else rng.choice("FCHLM1D"))
    return tuple(ops) + (rng.randint(0, 40), "F", "C")


def shuffle(rng, actors):
    o = [i for i, a in enumerate(actors) for _ in range(a.steps)]
    rng.shuffle(o)
    return o


def item(c, what, mk, order, threads=None):
    actors = mk()
    interleave(c, what, actors, order if order is not None else shuffle(random.Random(str(what) + str(SEED)), actors), threads)


def main(k):
    q = k.tier == "quick"
    use_cpu()
    rng = random.Random(SEED)
    x, xd, ns, n, w = machine(), machine(profile="dev"), machine(std=False), neon(), wasm()
    ms = [x, xd, ns, n, w] + ([] if q else [machine(build.I686), machine(feat="+avx2"), machine(feat="+sse4.1"),
                                            neon("dev"), machine(profile="relchk")])
    prepare(ms, [x, xd, n, w])
    SC = SCRIPTS
    for m in ms:
        full = not q or m is x
        # kinds with a Hasher impl etc.; NEON has inherent methods only
        pairs = [(a, b) for a in m.kinds for b in m.kinds if a == b or full and a < b]
        it, pre = [], []

        # preemption
        for ka in m.kinds:
            init = "build" if ka == "d" else "new"
            for at, sa in ((0, (5, "F")), (1, (70, "F")), (2, (35, 40, "F")), (2, (5, "F")), (2, (21, "F")), (2, (5, "C", 3, "F")),
                           (2, (5, "H", 3, "F")), (2, (5, "1", "F")), (2, (5, "L", 9, "F")), (1, (5, "F")), (2, (5, "D", 9, "F"))):
                for sb, ib in (((3, 60, "F"), init + "2" * (init == "build")), ((64, "C", "F"), 9)) if full else (((3, 60, "F"), init),):
                    for wm in (None, ((9, "F"), "new")) if full and not at else (None,):
                        pre.append((m, ka, sa, at, init, sb, ib, wm))
        for g in chunks(pre, 10):
            k.task("preempted %s" % m, batch, pitem, g)

        wn = [(m, ka, i, s) for ka in m.kinds for i in ("new", "default", "build", 13) if ka == "d" or i != "build"
              for s in ((70, "F", 9, "F"), (5, "F"), (0, "F"), (7, "L", 30, "F", "1"), (("hwrite", 7), 33, "F"))
              if m.has(ka + "_hwrite") or s[0] != ("hwrite", 7)]
        for g in chunks(wn, 30):
            k.task("worn %s" % m, batch, worn, g)

        def add(what, mk, order, threads=None):
            it.append((what, mk, order, threads))
        for ka, kb in pairs:
            same = ka == kb
            nm = ka + kb
            heavy = "d" in (ka, kb) and q
            for i, sa in enumerate(SC):
                if (not full and i > 3) or (not same and i % 4):
                    continue
                sb = SC[(i * 5 + 3) % len(SC)]
                mk = lambda ka=ka, kb=kb, sa=sa, sb=sb, m=m, i=i: [
                    Actor("a", ka, sa, m, ("new", 31, "new", "default", 7)[i % 5]),
                    Actor("b", kb, sb, m, ("new", "new", 16, "new", 0)[i % 5])]
                na, nb = 1 + len(sa), 1 + len(sb)
                add("%s alternate %d" % (nm, i), mk, [])
                add("%s b first %d" % (nm, i), mk, [1] * nb)
                if full and same:
                    add("%s a first %d" % (nm, i), mk, [0] * na)
                    for p in ([1, 3] if heavy else range(1, na)):
                        add("%s b inside a at %d, %d" % (nm, p, i), mk, [0] * p + [1] * nb)
                    add("%s shuffled %d" % (nm, i), mk, None)
            if same:
                # a hasher built where an earlier one was; three hashers; one type in several threads
                for i in (0, 3, 6):
                    mk = lambda ka=ka, m=m, i=i: [Actor("a", ka, SC[i] + ("X",), m, "new", "mem"),
                                                  Actor("b", ka, SC[i + 1], m, "new", "mem")]
                    add("%s same place %d" % (nm, i), mk, [0] * (2 + len(SC[i])))
                mk = lambda ka=ka, m=m: [Actor(z, ka, sc, m) for z, sc in zip("abe", (SC[0], SC[1], SC[5]))]
                add("%s three" % nm, mk, [])
                add("%s three shuffled" % nm, mk, None)
                mk = lambda ka=ka, m=m: [Actor("a", ka, SC[0], m), Actor("b", ka, SC[3], m, thread=1)]
                if m in (x, xd):
                    add("%s two threads" % nm, mk, None, "fixed")
                    add("%s moved between threads" % nm, mk, [0, 0, 1, 1, 0, 1], "migrate")
                if ka in "pd":
                    for tot in ((4, 40, 100) if full else (40,)):
                        mk = lambda ka=ka, m=m, tot=tot, rng=rng: [Actor(z, ka, (tot, "F", 3, "F"), m) for z in "ab"]
                        add("%s equal %d" % (nm, tot), mk, [])
                for _ in range(2 if q and full else 0 if q else 10):
                    sa, sb = rnd(rng, m, ka), rnd(rng, m, ka)
                    mk = lambda ka=ka, m=m, sa=sa, sb=sb: [Actor("a", ka, sa, m, 3), Actor("b", ka, sb, m)]
                    add("%s random %s %s" % (nm, sa, sb), mk, None)
        if "d" in m.kinds:
            for i in range(0, len(SC), 2):
                mk = lambda m=m, i=i: [Actor("a", "d", SC[i], m, "build"), Actor("b", "d", SC[(i + 2) % len(SC)], m, "build")]
                add("shared builder %d" % i, mk, [])
                add("shared builder, b first %d" % i, mk, [1] * 9)
                add("shared builder, a first %d" % i, mk, [0] * 9)
                mk = lambda m=m, i=i: [Actor("a", "d", SC[i], m, "build"), Actor("b", "d", SC[(i + 2) % len(SC)], m, "build2"),
                                       Actor("e", "d", (40, "F"), m, "build"), Actor("g", "d", (3, "F"), m, "build2")]
                add("two builders %d" % i, mk, [] if i % 4 else None)
                add("two builders, b first %d" % i, mk, [1] * 9)
            mk = lambda m=m: [Actor("a", "d", SC[0], m, "build"), Actor("b", "p", SC[1], m), Actor("e", "d", SC[6], m, "build")]
            add("shared builder and another", mk, None)
        for g in chunks(it, 10):
            k.task("interleave %s" % m, batch, item, g)
    k.bounds = {"configurations": [str(m) for m in ms], "interleavings": "2-3 hashers (equal and different types; from keys, "
                "restored bytes, one shared builder; a hasher built in a dead one's memory), scripts of up to 10 operations, "
                "sequential, alternating, nested at every step and shuffled orders", "threads": "operations spread over threads, "
                "hashers moved between threads (thread-local storage per thread); one preemption before every access to "
                "shared mutable memory, the other thread running to completion there", "inputs": "all keys and bytes"}
    k.explanation = ("Interleaved operations on several hashers are executed symbolically on the IR, with the crate's static "
                     "memory shared, and every result is compared with the same hasher run alone. Every access to shared "
                     "mutable memory is recorded; a path without any cannot depend on a schedule. Where there is one, the "
                     "other thread is run just before it.")
    k.assumptions = ["std's CPU-feature cache is correct (it is the only process-wide input)", "sequentially consistent "
                     "memory; one preemption per operation"]


def pitem(c, m, ka, sa, at, init, sb, ib, wm):
    a = Actor("a", ka, sa, m, init)
    b = Actor("b", ka, sb, m, ib)
    e = Actor("e", ka, wm[0], m, wm[1]) if wm else None
    preempted(c, "%s %s" % (ka, sa), m, a, b, at, e)
