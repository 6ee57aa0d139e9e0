"""SMT back end (z3) for the symbolic executor: path feasibility, model values,
equivalence of terms (normal form + SAT sweeping + z3), and the audit of the term
rewriter."""
import random
import time

import z3

from terms import *
import terms as tm


class Stats:
    def __init__(self):
        self.feas = 0
        self.feas_cached = 0
        self.values = 0
        self.eq_norm = 0      # equalities closed by the normal form
        self.eq_smt = 0       # equalities closed by z3 queries
        self.smt_queries = 0
        self.smt_unknown = 0
        self.lemmas = 0
        self.time = 0.0

    def add(self, o):
        for k, v in (o if type(o) is dict else o.__dict__).items():
            setattr(self, k, getattr(self, k, 0) + v)

    def dict(self):
        return dict(self.__dict__)


class Z:
    """translation of terms to z3, memoised per term id"""

    def __init__(self, uf_mul=True, cut=None):
        self.m = {}
        self.uf_mul = uf_mul
        self.cut = cut or {}
        self.ufs = {}
        self.ctx = None

    def c(self, w, x):
        return z3.BitVecVal(x, w)

    def v(self, w, x):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        r = self.m.get(x.id)
        if r is None:
            for t in self.order(x):
                self.m[t.id] = self.one(t)
            r = self.m[x.id]
        return r

    def order(self, x):
        """the part of x's cone that still needs translating (stops at cut points)"""
        seen = {}
        st = [x]
        while st:
            t = st.pop()
            if t.id in seen or t.id in self.m:
                continue
            seen[t.id] = t
            if t.id in self.cut:
                continue
            for k in children(t):
                st.append(k)
        return [seen[k] for k in sorted(seen)]

    def b(self, c):
        """1-bit value as a z3 Bool"""
        return self.v(1, c) == z3.BitVecVal(1, 1)

    def uf(self, w):
        f = self.ufs.get(w)
        if f is None:
            s = z3.BitVecSort(w)
            f = self.ufs[w] = z3.Function("mul%d" % w, s, s, s)
        return f

    def one(self, t):
        op, w, a = t.op, t.w, t.a
        g = self.v
        if t.id in self.cut:
            return z3.BitVec("cut!%d" % t.id, w)
        if op == "var":
            return z3.BitVec(a[0], w)
        if op == "cat":
            return z3.Concat(*[g(pw, x) for (pw, x) in a])
        if op == "ext":
            return z3.Extract(a[1] + w - 1, a[1], g(a[0].w, a[0]))
        if op == "add":
            r = None
            for (x, k) in a[1]:
                y = g(w, x)
                if k == (1 << w) - 1:
                    y = -y
                elif k != 1:
                    y = y * self.c(w, k)
                r = y if r is None else r + y
            if a[0]:
                r = r + self.c(w, a[0])
            return r
        if op == "xor":
            r = None
            for x in a[1]:
                y = g(w, x)
                r = y if r is None else r ^ y
            if a[0] == (1 << w) - 1:
                return ~r
            if a[0]:
                r = r ^ self.c(w, a[0])
            return r
        if op == "and" or op == "or":
            r = None
            for x in a:
                y = g(w, x)
                r = y if r is None else (r & y if op == "and" else r | y)
            return r
        if op == "mul":
            x, y = g(w, a[0]), g(w, a[1])
            if self.uf_mul:
                return self.uf(w)(x, y)
            return x * y
        if op == "ite":
            return z3.If(self.b(a[0]), g(w, a[1]), g(w, a[2]))
        if op == "eq":
            x, y = a
            ow = x.w if type(x) is T else y.w
            return z3.If(g(ow, x) == g(ow, y), self.c(1, 1), self.c(1, 0))
        if op == "ult":
            return z3.If(z3.ULT(g(a[2], a[0]), g(a[2], a[1])), self.c(1, 1), self.c(1, 0))
        if op == "slt":
            return z3.If(g(a[2], a[0]) < g(a[2], a[1]), self.c(1, 1), self.c(1, 0))
        if op == "shl":
            return g(w, a[0]) << g(w, a[1])
        if op == "lshr":
            return z3.LShR(g(w, a[0]), g(w, a[1]))
        if op == "ashr":
            return g(w, a[0]) >> g(w, a[1])
        if op == "udiv":
            return z3.UDiv(g(w, a[0]), g(w, a[1]))
        if op == "urem":
            return z3.URem(g(w, a[0]), g(w, a[1]))
        if op == "sdiv":
            return g(w, a[0]) / g(w, a[1])
        if op == "srem":
            return z3.SRem(g(w, a[0]), g(w, a[1]))
        if op == "ctpop":
            x = g(w, a[0])
            r = self.c(w, 0)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return r
        if op in ("fshl", "fshr"):
            x, y, n = g(w, a[0]), g(w, a[1]), g(w, a[2])
            big = z3.Concat(x, y)
            n2 = z3.ZeroExt(w, n)
            if op == "fshl":
                return z3.Extract(2 * w - 1, w, big << n2)
            return z3.Extract(w - 1, 0, z3.LShR(big, n2))
        raise NotImplementedError(op)


def ranges(z, conds):
    """the value ranges assumed of the variables below conds"""
    out = []
    if tm._range:
        for v in variables(conds):
            r = tm._range.get(v.id)
            if r:
                x = z.v(v.w, v)
                out.append(z3.UGE(x, z3.BitVecVal(r[0], v.w)))
                out.append(z3.ULE(x, z3.BitVecVal(r[1], v.w)))
    return out


class Solver:
    def __init__(self):
        self.stats = Stats()
        self.cache = {}
        self.z = Z(uf_mul=False)
        self.timeout = 10000
        self.models = []
        self.fv = {}

    def _check(self, conds, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for c in conds:
            s.add(self.z.b(c))
        for c in ranges(self.z, conds):
            s.add(c)
        t = time.time()
        r = s.check()
        self.stats.time += time.time() - t
        return r, s

    def slice(self, pc, extra):
        """conjuncts of pc connected to extra through shared variables"""
        want = set(v.id for v in variables(extra))
        rest = [(c, set(v.id for v in variables([c]))) for c in pc if type(c) is T]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, vs in rest:
                if vs & want:
                    out.append(c)
                    want |= vs
                    ch = True
                else:
                    nr.append((c, vs))
            rest = nr
        return out

    def facts_for(self, conds, facts):
        """address facts about the objects the conditions mention"""
        vs = set(v.id for v in variables(conds))
        return [f for f in facts if type(f) is T and all(v.id in vs for v in self.fvars(f))]

    def fvars(self, f):
        r = self.fv.get(f.id)
        if r is None:
            r = self.fv[f.id] = variables([f])
        return r

    def feasible(self, pc, extra, facts=()):
        for c in list(pc) + list(extra):
            if type(c) is int and not c:
                return False
        extra = [c for c in extra if type(c) is T]
        if not extra:
            return True
        conds = self.slice(pc, extra) + extra
        if facts:
            conds += self.facts_for(conds, facts)
        key = frozenset(c.id for c in conds)
        r = self.cache.get(key)
        if r is not None:
            self.stats.feas_cached += 1
            return r
        self.stats.feas += 1
        res, s = self._check(conds)
        r = res != z3.unsat
        if res == z3.unknown:
            self.stats.smt_unknown += 1
        self.cache[key] = r
        return r

    def value(self, pc, w, x, facts=()):
        self.stats.values += 1
        pc = self.slice(pc, [x])
        if facts:
            pc += self.facts_for(pc + [x], facts)
        res, s = self._check(pc)
        if res == z3.unsat:
            return None
        if res == z3.unknown:
            raise TimeoutError("z3 gave no value")
        v = s.model().eval(self.z.v(w, x), model_completion=True)
        return v.as_long()

    def model(self, pc, timeout=20000):
        """an assignment (name -> int) satisfying pc, or None"""
        for c in pc:
            if type(c) is int and not c:
                return None
        conds = [c for c in pc if type(c) is T]
        res, s = self._check(conds, timeout)
        if res != z3.sat:
            return None
        m = s.model()
        out = {}
        for v in variables(conds):
            out[v.a[0]] = m.eval(self.z.v(v.w, v), model_completion=True).as_long()
        return out


# ------------------------------------------------------------------ equivalence
class Verdict:
    EQ = "eq"
    NE = "ne"
    UNKNOWN = "unknown"


def sim_env(rng, vs, k):
    """one random assignment; a mix of uniform and sparse patterns"""
    env = {}
    for v in vs:
        w = v.w
        m = k % 4
        if m == 0:
            x = rng.getrandbits(w)
        elif m == 1:
            x = rng.getrandbits(w) & rng.getrandbits(w) & rng.getrandbits(w)
        elif m == 2:
            x = rng.getrandbits(w) | rng.getrandbits(w) | rng.getrandbits(w)
        else:
            x = rng.choice((0, (1 << w) - 1, 1 << (w - 1), 1, rng.getrandbits(w)))
        env[v.a[0]] = x
    return env


class Equiv:
    """decides a = b for pairs of terms"""

    def __init__(self, stats, seed=1, nsim=24, local_ms=3000, final_ms=20000, budget_s=120):
        self.stats = stats
        self.rng = random.Random(seed)
        self.nsim = nsim
        self.local_ms = local_ms
        self.final_ms = final_ms
        self.budget_s = budget_s

    def check(self, pairs, pc=()):
        """pairs: [(w, a, b)]; pc: path condition.  Returns (verdict, env, index of pair)"""
        todo = []
        for i, (w, a, b) in enumerate(pairs):
            if a is b or (type(a) is int and type(b) is int and a == b):
                self.stats.eq_norm += 1
                continue
            if a is UNDEF or b is UNDEF:
                return Verdict.NE, {}, i
            if type(a) is int and type(b) is int:
                env = self.model(pc) if pc else {}
                if env is not None:
                    return Verdict.NE, env, i
                return Verdict.UNKNOWN, None, i
            todo.append((i, w, a, b))
        if not todo:
            return Verdict.EQ, None, None
        pc = [c for c in pc if type(c) is T]
        # apply equalities of the path condition
        sub = pc_subst(pc)
        if sub:
            flat = substitute([x for (_, _, a, b) in todo for x in (a, b)], sub)
            todo = [(i, w, flat[2 * k], flat[2 * k + 1]) for k, (i, w, _, _) in enumerate(todo)]
            t2 = []
            for (i, w, a, b) in todo:
                if a is b or (type(a) is int and a == b):
                    self.stats.eq_norm += 1
                else:
                    t2.append((i, w, a, b))
            todo = t2
            if not todo:
                return Verdict.EQ, None, None
        # a distinguishing assignment by evaluation?
        roots = [x for (_, _, a, b) in todo for x in (a, b)] + pc
        order = cone(roots)
        vs = [t for t in order if t.op == "var"]
        base = None
        if pc:
            base = self.model(pc)
        sims = []
        for k in range(self.nsim):
            env = sim_env(self.rng, vs, k)
            if sub:
                for n, v in sub.items():
                    if type(v) is int:
                        env[n] = v
            if base:
                # keep the constrained variables at a satisfying value
                env.update(base)
            val = eval_order(order, env)
            if any(not val[c.id] for c in pc):
                continue
            sims.append(val)
            for (i, w, a, b) in todo:
                x = a if type(a) is int else val[a.id]
                y = b if type(b) is int else val[b.id]
                if x != y:
                    return Verdict.NE, self.with_sub(env, sub), i
        r, env, i = self.sweep(todo, pc, order, sims)
        return r, self.with_sub(env, sub), i

    def with_sub(self, env, sub):
        if env and sub:
            for v in variables([v for v in sub.values() if type(v) is T]):
                env.setdefault(v.a[0], self.rng.getrandbits(v.w))
            for n, v in sub.items():
                env[n] = evaluate([v], env)[0] if type(v) is T else v
        return env

    def model(self, pc):
        s = Solver()
        s.stats = self.stats
        return s.model(list(pc))

    def sweep(self, todo, pc, order, sims):
        """SAT sweeping: candidate-equal nodes (same values on all simulated assignments) are merged
        when a local query proves them equal.  Where it does not, a query over the whole (shallow)
        cone looks for an assignment that tells them apart; it joins the simulated assignments, and
        decides the pairs themselves if the difference reaches them."""
        t0 = time.time()
        sub = {}
        reps = {}
        tries = 40
        for t in order:
            if time.time() - t0 > self.budget_s:
                return Verdict.UNKNOWN, None, todo[0][0]
            n = rebuild(t, sub)
            sub[t.id] = n
            if type(n) is int or t.op == "var":
                continue
            sig = (t.w, tuple(v[t.id] for v in sims))
            if t.w == 1 and len(set(sig[1])) == 1:
                continue
            r = reps.get(sig)
            if r is None:
                reps[sig] = [(t, n)]
                continue
            if any(x is n for _, x in r):
                continue
            done = False
            for t1, x in r[:3]:
                v = self.local(t.w, x, n, pc)
                if v:
                    sub[t.id] = x
                    done = True
                    break
                if tries and (t1.op, t.op) != ("var", "var"):
                    tries -= 1
                    env = self.tell_apart(t, t1, pc)
                    if env:
                        for v in order:
                            if v.op == "var":
                                env.setdefault(v.a[0], self.rng.getrandbits(v.w))
                        val = eval_order(order, env)
                        if all(val[c.id] for c in pc):
                            for (i, w, a, b) in todo:
                                if (a if type(a) is int else val[a.id]) != (b if type(b) is int else val[b.id]):
                                    return Verdict.NE, env, i
                            sims.append(val)
                            old = [m for c in reps.values() for m in c]
                            reps = {}
                            for m in old:
                                reps.setdefault((m[0].w, tuple(v[m[0].id] for v in sims)), []).append(m)
                            sig = (t.w, tuple(v[t.id] for v in sims))
                            break
            if not done:
                reps.setdefault(sig, []).append((t, n))
        res = Verdict.EQ
        bad = None
        for (i, w, a, b) in todo:
            x = a if type(a) is int else sub[a.id]
            y = b if type(b) is int else sub[b.id]
            if x is y or (type(x) is int and x == y):
                self.stats.eq_smt += 1
                continue
            v, env = self.final(w, x, y, pc)
            if v == Verdict.EQ:
                self.stats.eq_smt += 1
                continue
            if v == Verdict.NE:
                return v, env, i
            res = Verdict.UNKNOWN
            bad = i
        return res, None, bad

    def local(self, w, x, y, pc):
        """try to prove x = y in the abstraction where multiplications are uninterpreted and
        deep sub-terms are cut"""
        for depth in (4, 9):
            cut = cut_at([x, y], depth)
            z = Z(uf_mul=True, cut=cut)
            r = self.q([z.v(w, x) != z.v(w, y)] + [z.b(c) for c in pc if len(cone([c])) < 200],
                       self.local_ms if depth > 4 else 500)
            if r == z3.unsat:
                return True
            if not cut:
                break
        return False

    def tell_apart(self, x, y, pc):
        """an assignment under which x and y differ, when their cones are shallow"""
        c = cone([x, y])
        if len(c) > 600 or sum(t.op in ("mul", "udiv", "urem", "sdiv", "srem") for t in c) > 2:
            return None
        z = Z(uf_mul=False)
        roots = [x, y] + list(pc)
        if self.q([z.v(x.w, x) != z.v(x.w, y)] + [z.b(k) for k in pc] + ranges(z, roots), self.local_ms) != z3.sat:
            return None
        m = self.last.model()
        return {v.a[0]: m.eval(z.v(v.w, v), model_completion=True).as_long() for v in variables(roots)}

    def q(self, cs, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*cs)
        t = time.time()
        r = s.check()
        self.stats.time += time.time() - t
        self.stats.smt_queries += 1
        self.last = s
        if r == z3.unknown:
            self.stats.smt_unknown += 1
        return r

    def final(self, w, x, y, pc):
        z = Z(uf_mul=True)
        if self.q([z.v(w, x) != z.v(w, y)] + [z.b(c) for c in pc], self.final_ms) == z3.unsat:
            return Verdict.EQ, None
        z = Z(uf_mul=False)
        r = self.q([z.v(w, x) != z.v(w, y)] + [z.b(c) for c in pc] + ranges(z, [x, y] + list(pc)), self.final_ms)
        if r == z3.unsat:
            return Verdict.EQ, None
        if r == z3.sat:
            m = self.last.model()
            env = {}
            for v in variables([x, y] + list(pc)):
                env[v.a[0]] = m.eval(z.v(v.w, v), model_completion=True).as_long()
            vals = evaluate([x, y], env)
            if vals[0] != vals[1]:
                return Verdict.NE, env
        return Verdict.UNKNOWN, None


def cut_at(roots, depth):
    """ids of terms at the given depth below the roots (leaves for a local query)"""
    level = {}
    cur = [r for r in roots if type(r) is T]
    for t in cur:
        level[t.id] = t
    for _ in range(depth):
        nxt = []
        for t in cur:
            for k in children(t):
                if k.id not in level:
                    level[k.id] = k
                    nxt.append(k)
        cur = nxt
    return {t.id: t for t in cur if t.op != "var"}


def pc_subst(pc):
    """variable definitions implied by equalities in the path condition"""
    env = {}
    todo = list(pc)
    n = 0
    while todo and n < 200:
        n += 1
        c = todo.pop(0)
        if type(c) is not T:
            continue
        if env:
            c = substitute([c], env)[0]
            if type(c) is not T:
                continue
        d = None
        if c.op == "eq":
            for a, b in (c.a, c.a[::-1]):
                if type(a) is T and a.op == "var" and (type(b) is int or a not in variables([b])):
                    d = (a.a[0], b)
                    break
        elif c.op == "var" and c.w == 1:
            d = (c.a[0], 1)
        elif c.op == "xor" and c.w == 1 and c.a[0] == 1 and len(c.a[1]) == 1 and c.a[1][0].op == "var":
            d = (c.a[1][0].a[0], 0)
        elif c.op == "and" and c.w == 1:
            todo[:0] = [x for x in children(c) if type(x) is T]
        if d:
            for k, v in env.items():
                if type(v) is T:
                    env[k] = substitute([v], {d[0]: d[1]})[0]
            env[d[0]] = d[1]
    return env
