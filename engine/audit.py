"""Audit of the term rewriter: z3 discharges the rewriting steps a symbolic run really made.

While an audit is on, every outermost call of a term constructor is logged with its arguments
and its result.  Each logged step claims  op(args) = result.  A step is abstracted to the
shape of its terms down to a small depth (deeper subterms become free variables; what is known
about their leading zeros is kept), steps of equal shape are merged, and z3 is asked for
values that tell the two sides apart.  No such values: the step is valid for every argument.
If the abstraction was too coarse the depth is increased, up to the full terms."""
import time

import z3

import terms as tm
from terms import T, UNDEF

NAMES = ("cat", "ext", "zext", "sext", "and_", "or_", "xor_", "not_", "add", "sub", "mul", "shl", "lshr",
         "ashr", "udiv", "urem", "sdiv", "srem", "ite_w", "eq", "ult", "slt", "icmp", "ctpop", "fshl", "fshr")
_orig = {}
_state = {"depth": 0, "log": None, "n": 0, "seen": None, "full": False, "max": 0}


def _call(name, args):
    st = _state
    if name == "cat":
        args = ([p for p in args[0]],)
    if st["depth"] or st["full"]:
        return _orig[name](*args)
    st["depth"] = 1
    try:
        r = _orig[name](*args)
    finally:
        st["depth"] = 0
    flat = args if name != "cat" else [v for _, v in args[0]]
    for x in flat:
        if type(x) is T:
            break
    else:
        return r
    if r is UNDEF or any(x is UNDEF for x in flat):
        return r
    st["n"] += 1
    step = (name, args if name != "cat" else tuple(args[0]), r)
    k = key(step, 2)[0]
    if k not in st["seen"]:
        st["seen"].add(k)
        st["log"].append((step, dict(tm._range)))
        st["full"] = len(st["log"]) >= st["max"]
    return r


def start(most):
    import types
    _state.update(log=[], seen=set(), n=0, depth=0, full=False, max=most)
    for n in NAMES:
        f = getattr(tm, n)
        if n not in _orig:
            g = _orig[n] = types.FunctionType(f.__code__, f.__globals__, n, f.__defaults__, f.__closure__)
        ns = {}
        exec("def %s(*args, **kw): return _audit_call(%r, args)" % (n, n), ns)
        f.__code__ = ns[n].__code__
    tm._audit_call = _call


def stop():
    for n in NAMES:
        getattr(tm, n).__code__ = _orig[n].__code__
    log = _state["log"]
    _state["log"] = None
    _state["seen"] = None
    return log, _state["n"]


# ------------------------------------------------------------------ shapes
def kids(t):
    if t.op == "cat":
        return [x for _, x in t.a if type(x) is T]
    if t.op in ("add", ):
        return [x for x, _ in t.a[1] if type(x) is T]
    if t.op == "xor":
        return [x for x in t.a[1] if type(x) is T]
    if t.op == "var":
        return []
    return [x for x in t.a if type(x) is T]


def terms_of(step):
    name, args, r = step
    fl = [v for _, v in args] if name == "cat" else list(args)
    return [x for x in fl + [r] if type(x) is T]


def inner(step, depth):
    """the terms of the step nearer than depth to its arguments or result"""
    roots = terms_of(step)
    near = {}
    cur = roots
    for d in range(depth if depth else 1 << 30):
        nxt = []
        for t in cur:
            if id(t) not in near:
                near[id(t)] = t
                nxt += kids(t)
        if not nxt:
            break
        cur = nxt
    return near


def key(step, depth):
    """canonical text of the step's shape"""
    near = inner(step, depth)
    num = {}
    out = []

    def ref(w, x):
        if type(x) is not T:
            return "%x:%s" % (x, w) if type(x) is int else str(x)
        if id(x) not in num:
            num[id(x)] = len(num)
            if id(x) not in near or x.op == "var":
                r = tm._range.get(x.id)
                out.append("L%d:%d:%d%s" % (num[id(x)], x.w, x.lz, r or ""))
            else:
                out.append("(%d" % num[id(x)] + body(x) + ")")
        return "#%d" % num[id(x)]

    def body(t):
        op, w, a = t.op, t.w, t.a
        if op == "cat":
            return "cat " + " ".join(ref(pw, x) for pw, x in a)
        if op == "ext":
            return "ext%d,%d " % (a[1], w) + ref(None, a[0])
        if op == "add":
            return "add%d+%x " % (w, a[0]) + " ".join("%x*%s" % (k, ref(w, x)) for x, k in a[1])
        if op == "xor":
            return "xor%d^%x " % (w, a[0]) + " ".join(ref(w, x) for x in a[1])
        return "%s%d " % (op, w) + " ".join(ref(w, x) for x in a)
    name, args, r = step
    if name == "cat":
        s = "cat " + " ".join("%d/%s" % (w, ref(w, x)) for w, x in args)
    else:
        s = name + " " + " ".join(ref(None, x) for x in args)
    s += " -> " + ref(None, r)
    return s + "|" + "".join(out), near


# ------------------------------------------------------------------ to z3
class Conv:
    def __init__(self, near, ranges):
        self.near = near
        self.m = {}
        self.facts = []
        self.ranges = ranges

    def v(self, w, x):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        r = self.m.get(id(x))
        if r is None:
            todo = [x]
            while todo:
                t = todo[-1]
                if id(t) in self.m:
                    todo.pop()
                    continue
                need = [] if id(t) not in self.near else [k for k in kids(t) if id(k) not in self.m]
                if need:
                    todo += need
                    continue
                todo.pop()
                self.m[id(t)] = self.one(t)
            r = self.m[id(x)]
        return r

    def leaf(self, t):
        r = z3.BitVec("l%d" % len(self.m), t.w)
        if t.lz:
            self.facts.append(z3.Extract(t.w - 1, t.w - t.lz, r) == 0)
        if t.op == "var" and t.id in self.ranges:
            lo, hi = self.ranges[t.id]
            self.facts += [z3.UGE(r, lo), z3.ULE(r, hi)]
        return r

    def one(self, t):
        op, w, a, g = t.op, t.w, t.a, self.v
        if id(t) not in self.near or op == "var":
            return self.leaf(t)
        if op == "cat":
            return z3.Concat(*[g(pw, x) for pw, x in a])
        if op == "ext":
            return z3.Extract(a[1] + w - 1, a[1], g(a[0].w, a[0]))
        if op == "add":
            r = z3.BitVecVal(a[0], w)
            for x, k in a[1]:
                r = r + g(w, x) * z3.BitVecVal(k, w)
            return r
        if op == "xor":
            r = z3.BitVecVal(a[0], w)
            for x in a[1]:
                r = r ^ g(w, x)
            return r
        if op in ("and", "or"):
            r = g(w, a[0])
            for x in a[1:]:
                r = (r & g(w, x)) if op == "and" else (r | g(w, x))
            return r
        if op == "mul":
            return self.prod(w, g(w, a[0]), g(w, a[1]))
        if op == "ite":
            return z3.If(g(1, a[0]) == 1, g(w, a[1]), g(w, a[2]))
        if op == "eq":
            ow = a[0].w if type(a[0]) is T else a[1].w
            return self.bit(g(ow, a[0]) == g(ow, a[1]))
        if op in ("ult", "slt"):
            x, y = g(a[2], a[0]), g(a[2], a[1])
            return self.bit(z3.ULT(x, y) if op == "ult" else x < y)
        return self.op(op, w, *[g(w, x) for x in a])

    def bit(self, c):
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def prod(self, w, x, y):
        if z3.is_bv_value(x) or z3.is_bv_value(y):
            return x * y
        return x * y if x.get_id() <= y.get_id() else y * x

    def op(self, op, w, *a):
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if op == "shl":
            return x << y
        if op == "lshr":
            return z3.LShR(x, y)
        if op == "ashr":
            return x >> y
        if op == "udiv":
            return z3.UDiv(x, y)
        if op == "urem":
            return z3.URem(x, y)
        if op == "sdiv":
            return x / y
        if op == "srem":
            return z3.SRem(x, y)
        if op == "ctpop":
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x)) if w > 1 else r + x
            return r
        if op in ("fshl", "fshr"):
            n = z3.URem(a[2], z3.BitVecVal(w, w))
            big = z3.Concat(x, y)
            n = z3.ZeroExt(w, n)
            return (z3.Extract(2 * w - 1, w, big << n) if op == "fshl"
                    else z3.Extract(w - 1, 0, z3.LShR(big, n)))
        raise NotImplementedError(op)

    def claim(self, step):
        """z3 terms of the two sides of the step, and a side condition"""
        name, a, r = step
        g = self.v
        ok = []
        if name == "cat":
            a = [p for p in a if p[0]]
            l = z3.Concat(*[g(w, x) for w, x in a]) if len(a) > 1 else g(*a[0])
            w = sum(w for w, _ in a)
        elif name == "ext":
            x, lo, w = a
            l = z3.Extract(lo + w - 1, lo, g(x.w, x))
        elif name in ("zext", "sext"):
            x, w0, w = a
            f = z3.ZeroExt if name == "zext" else z3.SignExt
            l = f(w - w0, g(w0, x))
        elif name in ("and_", "or_", "xor_", "add", "sub", "mul"):
            w, x, y = a
            x, y = g(w, x), g(w, y)
            l = {"and_": lambda: x & y, "or_": lambda: x | y, "xor_": lambda: x ^ y, "add": lambda: x + y,
                 "sub": lambda: x - y, "mul": lambda: self.prod(w, x, y)}[name]()
        elif name == "not_":
            w, x = a
            l = ~g(w, x)
        elif name in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            w, x, y = a
            x, y = g(w, x), g(w, y)
            if name in ("shl", "lshr", "ashr"):
                ok.append(z3.ULT(y, w))
            if name in ("udiv", "urem", "sdiv", "srem"):
                ok.append(y != 0)
            l = self.op(name, w, x, y)
        elif name == "ite_w":
            w, c, x, y = a
            l = z3.If(g(1, c) == 1, g(w, x), g(w, y))
        elif name in ("eq", "ult", "slt"):
            ow, x, y = a
            w = 1
            x, y = g(ow, x), g(ow, y)
            l = self.bit({"eq": x == y, "ult": z3.ULT(x, y), "slt": x < y}[name])
        elif name == "icmp":
            pred, ow, x, y = a
            w = 1
            x, y = g(ow, x), g(ow, y)
            l = self.bit({"eq": x == y, "ne": x != y, "ult": z3.ULT(x, y), "ule": z3.ULE(x, y),
                          "ugt": z3.UGT(x, y), "uge": z3.UGE(x, y), "slt": x < y, "sle": x <= y,
                          "sgt": x > y, "sge": x >= y}[pred])
        elif name == "ctpop":
            w, x = a
            l = self.op("ctpop", w, g(w, x))
        elif name in ("fshl", "fshr"):
            w = a[0]
            l = self.op(name, w, *[g(w, x) for x in a[1:]])
        else:
            raise NotImplementedError(name)
        return l, g(w, r), ok


def prove(step, ranges, ms=4000):
    """True: z3 shows the step valid; False: a genuine counterexample; None: undecided"""
    for depth in (2, 3, 5, 9, 0):
        near = inner(step, depth)
        c = Conv(near, ranges)
        l, r, ok = c.claim(step)
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*c.facts)
        s.add(*ok)
        s.add(l != r)
        res = s.check()
        if res == z3.unsat:
            return True
        if res == z3.sat and not depth:
            return False
    return None


def discharge(log, until, rng=None):
    """(proved, refuted, undecided, not reached)"""
    n = [0, 0, 0, 0]
    bad = []
    if rng:
        log = list(log)
        rng.shuffle(log)
    for step, ranges in log:
        if time.time() > until:
            n[3] += 1
            continue
        r = prove(step, ranges)
        n[0 if r else 1 if r is False else 2] += 1
        if not r:
            bad.append((r, key(step, 3)[0][:600]))
    return n, bad


def randomly(seed, rounds, steps=60):
    """random trees of every constructor, their steps proved by z3"""
    import random
    R = random.Random(seed)
    tot = [0, 0, 0, 0]
    for k in range(rounds):
        tm.reset()
        start(100000)
        pool = {w: [tm.var("r%d_%d" % (w, i), w) for i in range(3)] + [0, (1 << w) - 1, 1, R.getrandbits(w)]
                for w in (1, 8, 16, 32, 64)}
        for w in (8, 32, 64):
            x = tm.var("q%d" % w, w)
            lo = R.randrange(1 << R.randrange(1, w))
            tm.set_range(x, lo, min((1 << w) - 1, lo + R.randrange(1, 1 << R.randrange(1, w))))
            pool[w].append(x)
        for _ in range(steps):
            w = R.choice((1, 8, 16, 32, 64, 64))
            x, y = R.choice(pool[w]), R.choice(pool[w])
            f = R.choice(("and_", "or_", "xor_", "add", "sub", "mul", "not_", "shl", "lshr", "ashr", "ext", "zext",
                          "sext", "cat", "ite_w", "eq", "ult", "slt", "icmp", "mask", "urem", "udiv", "fshl", "fshr",
                          "ctpop", "vshl", "vlshr", "scaled"))
            g = getattr(tm, f, None)
            rw = w
            if f in ("and_", "or_", "xor_", "add", "sub"):
                r = g(w, x, y)
            elif f == "mul":
                r = g(w, x, y) if w < 32 or type(y) is int or type(x) is int else 0
            elif f in ("not_", "ctpop"):
                r = g(w, x)
            elif f in ("shl", "lshr", "ashr"):
                r = g(w, x, R.randrange(w))
            elif f == "vshl":
                r = tm.shl(w, x, tm.and_(w, y, w - 1))
            elif f == "vlshr":
                r = tm.lshr(w, x, tm.and_(w, y, w - 1))
            elif f == "ext":
                rw = R.choice([v for v in (1, 8, 16, 32, 64) if v <= w])
                r = g(x, R.randrange(w - rw + 1), rw) if type(x) is T else 0
            elif f in ("zext", "sext"):
                rw = R.choice([v for v in (1, 8, 16, 32, 64) if v >= w])
                r = g(x, w, rw)
            elif f == "cat":
                if w in (1, 64):
                    continue
                rw = 2 * w
                r = g([(w, x), (w, y)])
            elif f == "ite_w":
                r = g(w, R.choice(pool[1]), x, y)
            elif f in ("eq", "ult", "slt"):
                rw = 1
                r = g(w, x, y)
            elif f == "icmp":
                rw = 1
                r = g(R.choice(("eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge")), w, x, y)
            elif f == "mask":
                r = R.choice((tm.and_, tm.or_, tm.xor_))(w, x, R.getrandbits(w) & R.getrandbits(w))
            elif f == "scaled":
                r = tm.add(w, tm.mul(w, x, R.randrange(8)), tm.lshr(w, y, R.randrange(w)))
            elif f in ("urem", "udiv"):
                r = g(w, x, R.choice((3, 8, 10, 24, 1)) if w > 4 else 1)
            else:
                r = g(w, x, y, R.randrange(w))
            if r is not UNDEF:
                pool[rw].append(r)
        log, n = stop()
        c, bad = discharge(log, time.time() + 600)
        tot = [a + b for a, b in zip(tot, c)]
        for b in bad:
            print("seed %d round %d: %s" % (seed, k, b))
    return tot


if __name__ == "__main__":
    import sys
    s = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    print("steps proved, refuted, undecided, not reached: %s" % randomly(s, n))
