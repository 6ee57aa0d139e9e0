"""Symbolic executor for rustc-emitted LLVM IR.

Every LLVM function is translated (lazily) into a Python function over symbolic
values; memory is a set of bounded, byte-granular objects.  Control flow on a
symbolic condition forks the path: the run is repeated with a recorded prefix of
decisions, and z3 decides which sides are feasible.
"""
import re

from terms import *
import terms as tm
from llir import Module, Toks, tokenize, parse_type, parse_value, skip_attrs, idents, PTR, ParseError

U = UNDEF


class P:
    """pointer into an object"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "P(%s+%r)" % (self.obj.name, self.off)


class FuncRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "&" + self.name


class Obj:
    __slots__ = ("name", "size", "align", "data", "kind", "const", "base", "tls", "reads", "writes",
                 "lazy", "live", "frame")

    def __init__(self, name, size, align, kind, const=False):
        self.name = name
        self.size = size
        self.align = align
        self.data = [None] * size if type(size) is int else {}
        self.kind = kind
        self.const = const
        self.base = None
        self.tls = False
        self.reads = 0
        self.writes = 0
        self.lazy = None
        self.live = True
        self.frame = None


class PathEnd(Exception):
    def __init__(self, kind, info=""):
        Exception.__init__(self, kind, info)
        self.kind = kind
        self.info = info


class Stop(Exception):
    """scenario-level early end of a path"""


class RT:
    """state of the current path"""
    tag = ""
    mach_globs = {}
    havoc = {}           # names of globals that start with arbitrary contents
    full_addr = False     # whole addresses symbolic (slow), instead of the position within a page

    def __init__(self):
        self.solver = None
        self.reset([])
        self.step_limit = 40000000

    def reset(self, dec):
        self.dec = list(dec)
        self.di = 0
        self.pc = []
        self.pending = []
        self.globs = {}
        self.nobj = 0
        self.steps = 0
        self.stack = []
        self.events = []
        for (o, _) in getattr(self, "bases", {}).values():
            o.base = None
        self.bases = {}
        self.frames = {}
        self.allocs = 0
        self.seen = set()
        self.glob_reads = {}
        self.glob_writes = {}
        self.fork_info = []
        self.dbg_types = []
        self.havoc_globals = False
        self.inside = 0          # running as another thread that preempted a call
        self.preempt = None      # called before each access of shared mutable memory
        self.tid = 0
        self.notes = set()
        self.ctx = None
        self.phase = 0
        tm._fresh[0] = 0
        tm._fresh_tag[0] = self.tag

    # -------------------------------------------------------------- forking
    def feasible(self, extra):
        return self.solver.feasible(self.pc, extra, self.base_facts())

    def base_facts(self):
        return [f for b in self.bases.values() for f in b[1]]

    def branch(self, c):
        if c is UNDEF:
            raise PathEnd("undef", "branch on an undefined value")
        if type(c) is int:
            return c
        i = self.di
        self.di = i + 1
        # decisions: 0/1 a fork, 2/3 implied by the path (nothing to record)
        if i < len(self.dec):
            d = self.dec[i]
            if d > 1:
                return d - 2
        else:
            nc = not_(1, c)
            if c in self.pc:
                d = 3
            elif nc in self.pc:
                d = 2
            elif not self.feasible([c]):
                d = 2
            elif not self.feasible([nc]):
                d = 3
            else:
                self.pending.append(self.dec[:i] + [0])
                d = 1
            self.dec.append(d)
            if d > 1:
                return d - 2
        self.pc.append(c if d else not_(1, c))
        return d

    def assume(self, c):
        """restrict the path to c (a 1-bit value)"""
        if type(c) is int:
            if not c:
                raise PathEnd("infeasible")
            return
        self.pc.append(c)

    def concretize(self, w, x, limit=300):
        if type(x) is int:
            return x
        if x is UNDEF:
            raise PathEnd("undef", "an undefined value decides an address or a size")
        n = 0
        while True:
            i = self.di
            if i < len(self.dec):
                d = self.dec[i]
                self.di = i + 1
                k, v = d
                if k:
                    self.pc.append(eq(w, x, v))
                    return v
                self.pc.append(not_(1, eq(w, x, v)))
                continue
            v = self.solver.value(self.pc, w, x, self.base_facts())
            if v is None:
                raise PathEnd("infeasible")
            c = eq(w, x, v)
            if self.feasible([not_(1, c)]):
                n += 1
                if n > limit:
                    raise PathEnd("limit", "too many values to enumerate")
                self.pending.append(self.dec[:i] + [(0, v)])
            self.dec.append((1, v))

    # -------------------------------------------------------------- objects
    def new_obj(self, name, size, align, kind, const=False):
        self.nobj += 1
        o = Obj("%s.%d" % (name, self.nobj), size, align, kind, const)
        return o

    def base_of(self, o):
        if o.base is None:
            pw = PW[0]
            k = o.align.bit_length() - 1
            if not self.full_addr and k <= 12:
                # any placement within a page; the pages themselves are distinct constants, ascending
                # in runs tagged "A." and descending in the others; a stack slot is where the same
                # slot of an earlier, finished call was
                if o.frame is not None:
                    r = self.frames.get(o.frame)
                    if r is not None:
                        o.base = r[0]
                        self.bases[r[1]] = (o, [])
                        return o.base
                n = len(self.bases) + 1
                sh = 32 if pw == 64 else 18
                hi = (1 << 14) // 4 + n if self.tag == "A." else (1 << 14) // 2 - n
                if pw == 32:
                    hi = (1 << 13) // 4 + n if self.tag == "A." else (1 << 13) // 2 - n
                v = var("%saddr%d.%d:%s" % (self.tag, k, pw, o.name), 12 - k) if k < 12 else None
                o.base = cat([(pw - 12, hi << (sh - 12))] + ([(12 - k, v)] if v is not None else []) +
                             ([(k, 0)] if k else []))
                vn = v.a[0] if v is not None else "%s!%s" % (self.tag, o.name)
                self.bases[vn] = (o, [])
                if o.frame is not None:
                    self.frames[o.frame] = (o.base, vn)
                return o.base
            v = var("%saddr%d.%d:%s" % (self.tag, k, pw, o.name), pw - k)
            set_range(v, 4096 >> k, ((1 << (pw - 1)) - (1 << 30) - 1) >> k)
            o.base = cat([(pw - k, v), (k, 0)])
            # a real allocation: non-null, and within the positive half of the address space
            facts = [ult(pw, o.base, (1 << (pw - 1)) - (1 << 30)),
                     ult(pw, 4095, o.base)]
            if type(o.size) is int:
                # live objects do not overlap
                for (q, _) in self.bases.values():
                    if type(q.size) is int:
                        facts.append(or_(1, not_(1, ult(pw, o.base, add(pw, q.base, q.size))),
                                         not_(1, ult(pw, q.base, add(pw, o.base, o.size)))))
            self.bases[v.a[0]] = (o, facts)
        return o.base


rt = RT()
PW = [64]     # pointer width in bits
PB = [8]      # pointer bytes
BIG = [False]


# ---------------------------------------------------------------- pointers
def addr(p):
    """integer value of a pointer"""
    if type(p) is P:
        return add(PW[0], rt.base_of(p.obj), p.off if type(p.off) is not int else p.off & ((1 << PW[0]) - 1))
    if type(p) is FuncRef:
        return var("fn%d:%s" % (PW[0], p.name), PW[0])
    return p


def to_ptr(x):
    """integer -> pointer (recognises base + offset)"""
    if type(x) is int or x is UNDEF:
        return x
    if type(x) is P:
        return x
    for vn, (o, _) in rt.bases.items():
        d = sub(PW[0], x, o.base)
        if type(d) is int:
            if d >> (PW[0] - 1):
                d -= 1 << PW[0]
            return P(o, d)
        vs = [t for t in variables([d]) if t.a[0] == vn]
        if not vs and [t for t in variables([x]) if t.a[0] == vn]:
            return P(o, d)
    return x


def num(x):
    """operand of an integer operation"""
    if type(x) is P or type(x) is FuncRef:
        return addr(x)
    return x


def gep(p, off):
    if type(p) is P:
        o = p.off
        if type(o) is int and type(off) is int:
            return P(p.obj, o + off)
        if off is UNDEF:
            return UNDEF
        if type(off) is int:
            off &= (1 << PW[0]) - 1
        if type(o) is int:
            o &= (1 << PW[0]) - 1
        r = add(PW[0], o, off)
        if type(r) is int and r >> (PW[0] - 1):
            r -= 1 << PW[0]
        return P(p.obj, r)
    if p is UNDEF or off is UNDEF:
        return UNDEF
    return to_ptr(add(PW[0], num(p), off & ((1 << PW[0]) - 1) if type(off) is int else off))


def sidx(w, x, scale):
    """sign-extended, scaled gep index"""
    if type(x) is int:
        if x >> (w - 1):
            x -= 1 << w
        return x * scale
    x = num(x)
    if x is UNDEF:
        return x
    if w < PW[0]:
        x = sext(x, w, PW[0])
    elif w > PW[0]:
        x = trunc(x, PW[0])
    return mul(PW[0], x, scale)


def ptr_eq(a, b):
    if type(a) is P and type(b) is P:
        if a.obj is b.obj:
            return eq(PW[0], m_(a.off), m_(b.off))
        return eq(PW[0], addr(a), addr(b))
    if type(a) is FuncRef and type(b) is FuncRef:
        return 1 if a.name == b.name else 0
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(b) is P or type(b) is FuncRef:
        a, b = b, a
    if type(a) is FuncRef:
        return 0
    if type(a) is P:
        if type(b) is int and b < 4096 and type(a.off) is int and 0 <= a.off <= a.obj.size:
            return 0
        return eq(PW[0], addr(a), addr(b))
    return eq(PW[0], a, b)


def m_(x):
    return x & ((1 << PW[0]) - 1) if type(x) is int else x


def icmp_p(pred, a, b):
    if pred == "eq":
        return ptr_eq(a, b)
    if pred == "ne":
        r = ptr_eq(a, b)
        return r if r is UNDEF else not_(1, r)
    if type(a) is P and type(b) is P and a.obj is b.obj:
        if type(a.off) is int and type(b.off) is int:
            return icmp(pred.replace("u", "s"), PW[0] + 8, a.off & ((1 << PW[0] + 8) - 1), b.off & ((1 << PW[0] + 8) - 1))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return icmp(pred, PW[0], num(a), num(b))


# ---------------------------------------------------------------- memory
def where():
    return rt.stack[-1] if rt.stack else ""


def access(p, n, al, write):
    """validate an access; returns (obj, concrete offset)"""
    if type(p) is not P:
        if p is UNDEF:
            raise PathEnd("undef", "access through an undefined pointer")
        if type(p) is FuncRef:
            raise PathEnd("oob", "data access to code")
        if n == 0:
            return None, 0
        q = to_ptr(p)
        if type(q) is P:
            p = q
        else:
            raise PathEnd("oob", "access of %d bytes through an invalid address" % n)
    o = p.obj
    off = p.off
    if type(off) is not int:
        off = sym_off(o, off, n)
    size = o.size
    if type(size) is not int:
        # symbolic extent: in bounds for every value on this path?
        if off < 0 or rt.branch(ult(PW[0], size, off + n)):
            raise PathEnd("oob", oob_msg(o, off, n, write))
    elif off < 0 or off + n > size:
        raise PathEnd("oob", oob_msg(o, off, n, write))
    if al > 1 and (o.align % al or off % al):
        a = add(PW[0], rt.base_of(o), off)
        bad = not_(1, eq(PW[0], and_(PW[0], a, al - 1), 0))
        if type(bad) is int:
            if bad:
                raise PathEnd("misalign", "%d-byte aligned access at %s+%d" % (al, o.name, off))
        elif rt.branch(bad):
            raise PathEnd("misalign", "%d-byte aligned access at %s+%d" % (al, o.name, off))
    if write:
        if o.const:
            raise PathEnd("ub", "write to constant memory %s" % o.name)
        if o.kind == "global":
            if rt.preempt is not None and not o.tls:
                rt.preempt(o)
            rt.glob_writes.setdefault(o.name, set()).add(where())
        elif o.kind == "ro":
            raise PathEnd("rowrite", "write to read-only argument %s" % o.name)
        o.writes += 1
    elif o.kind == "global" and not o.const:
        if rt.preempt is not None and not o.tls:
            rt.preempt(o)
        rt.glob_reads.setdefault(o.name, set()).add(where())
    return o, off


def oob_msg(o, off, n, write):
    return "%s of %d bytes at offset %d of %s (%s bytes)" % (
        "write" if write else "read", n, off, o.name, o.size)


def sym_off(o, off, n):
    pw = PW[0]
    off = rt.concretize(pw, off)
    if off >> (pw - 1):
        off -= 1 << pw
    return off


def byte_of(v, k, n):
    """k-th byte in memory of an n-byte value"""
    if v is UNDEF:
        return UNDEF
    if type(v) is P or type(v) is FuncRef:
        return ("pb", v, k)
    if type(v) is tuple:
        return v
    return ext(v, 8 * (n - 1 - k) if BIG[0] else 8 * k, 8)


def split(o, c):
    s, n, v = c
    if n == 1:
        return
    d = o.data
    for k in range(n):
        d[s + k] = (s + k, 1, byte_of(v, k, n))


def put(o, off, n, v):
    d = o.data
    if type(d) is dict:
        return put_lazy(o, off, n, v)
    c = d[off]
    if n == 1:
        if c is not None and c[1] != 1:
            split(o, c)
        d[off] = (off, 1, v)
        return
    if c is not None and c[0] != off:
        split(o, c)
    c = d[off + n - 1]
    if c is not None and c[0] + c[1] > off + n:
        split(o, c)
    d[off:off + n] = [(off, n, v)] * n


def put_lazy(o, off, n, v):
    for k in range(n):
        o.data[off + k] = byte_of(v, k, n)


def get(o, off, n):
    """n-byte value at off (int, Term, P or UNDEF)"""
    d = o.data
    if type(d) is dict:
        return get_lazy(o, off, n)
    c = d[off]
    if c is not None and c[0] == off and c[1] == n:
        return c[2]
    parts = []
    i = off
    end = off + n
    undef = 0
    while i < end:
        c = d[i]
        if c is None:
            parts.append((1, UNDEF))
            undef += 1
            i += 1
            continue
        s, cn, v = c
        if s == i and s + cn <= end:
            parts.append((cn, v))
            if v is UNDEF:
                undef += cn
            i += cn
        else:
            b = byte_of(v, i - s, cn)
            if b is UNDEF:
                undef += 1
            parts.append((1, b))
            i += 1
    return join(parts, n, undef)


def get_lazy(o, off, n):
    parts = []
    undef = 0
    for i in range(off, off + n):
        v = o.data.get(i)
        if v is None:
            v = o.lazy(i) if o.lazy else UNDEF
            o.data[i] = v
        if v is UNDEF:
            undef += 1
        parts.append((1, v))
    return join(parts, n, undef)


def join(parts, n, undef):
    if undef == n:
        return UNDEF
    if undef:
        rt.notes.add("partially uninitialised load")
        parts = [(k, fresh(8 * k, "undef") if v is UNDEF else v) for (k, v) in parts]
    if type(parts[0][1]) is tuple or type(parts[0][1]) in (P, FuncRef):
        q = parts[0][1]
        if type(q) is tuple and len(parts) == PB[0] and n == PB[0]:
            p0 = q[1]
            if all(type(x) is tuple and x[1] is p0 and x[2] == k for k, (_, x) in enumerate(parts)):
                return p0
        if len(parts) == 1:
            return q
    vs = []
    for (k, v) in parts:
        if type(v) is tuple:
            a = addr(v[1])
            v = byte_of(a, v[2], PB[0])
        elif type(v) is P or type(v) is FuncRef:
            v = addr(v)
        vs.append((8 * k, v))
    if not BIG[0]:
        vs.reverse()
    return cat(vs)


def LD(p, n, al, w):
    if n == 0:
        return 0
    o, off = access(p, n, al, False)
    if rt.havoc_globals and o.kind == "global" and not o.const:
        return fresh(w, "havoc:" + o.name)
    v = get(o, off, n)
    tv = type(v)
    if tv is P or tv is FuncRef:
        return v
    if tv is tuple:
        v = byte_of(addr(v[1]), v[2], PB[0])
    if w != 8 * n:
        v = ext(v, 0, w)
    return v


def LDP(p, al):
    o, off = access(p, PB[0], al, False)
    v = get(o, off, PB[0])
    if type(v) is T:
        return to_ptr(v)
    return v


def LDV(p, n, w, al):
    b = w // 8
    if w % 8:
        v = LD(p, (n * w + 7) // 8, al, n * w)
        return tuple([ext(v, (n - 1 - i) * w if BIG[0] else i * w, w) for i in range(n)])
    o, off = access(p, n * b, al, False)
    out = []
    for i in range(n):
        v = get(o, off + i * b, b)
        if type(v) is P or type(v) is tuple:
            v = addr(v) if type(v) is P else byte_of(addr(v[1]), v[2], PB[0])
        out.append(v)
    return tuple(out)


def ST(p, v, n, al, w):
    if n == 0:
        return
    o, off = access(p, n, al, True)
    if w != 8 * n and v is not UNDEF:
        v = zext(v, w, 8 * n)
    put(o, off, n, v)


def STV(p, v, n, w, al):
    if w % 8:
        x = cat([(w, e) for e in (v if BIG[0] else v[::-1])])
        return ST(p, x, (n * w + 7) // 8, al, n * w)
    b = w // 8
    o, off = access(p, n * b, al, True)
    for i in range(n):
        put(o, off + i * b, b, v[i])


def memcpy(d, s, n, da=1, sa=1):
    n = num(n)
    if type(n) is not int:
        n = rt.concretize(PW[0], n)
    if n == 0:
        return
    so, soff = access(s, n, 1, False)
    do, doff = access(d, n, 1, True)
    if type(so.data) is dict or type(do.data) is dict:
        vals = []
        for k in range(n):
            vals.append(get(so, soff + k, 1))
        for k in range(n):
            put(do, doff + k, 1, vals[k])
        return
    sd = so.data
    # cut the cells that straddle the ends
    src = []
    i = soff
    end = soff + n
    while i < end:
        c = sd[i]
        if c is None:
            src.append(None)
            i += 1
            continue
        cs, cn, v = c
        if cs == i and cs + cn <= end:
            src.append((cs - soff, cn, v))
            i += cn
        else:
            src.append((i - soff, 1, byte_of(v, i - cs, cn)))
            i += 1
    dd = do.data
    c = dd[doff]
    if c is not None and c[0] != doff:
        split(do, c)
    c = dd[doff + n - 1]
    if c is not None and c[0] + c[1] > doff + n:
        split(do, c)
    i = doff
    for c in src:
        if c is None:
            dd[i] = None
            i += 1
        else:
            dd[i:i + c[1]] = [(i, c[1], c[2])] * c[1]
            i += c[1]


def memset(d, v, n):
    n = num(n)
    if type(n) is not int:
        n = rt.concretize(PW[0], n)
    if n == 0:
        return
    o, off = access(d, n, 1, True)
    if n % 8 == 0 and v == 0 and type(v) is int and type(o.data) is list and off % 8 == 0:
        for k in range(0, n, 8):
            put(o, off + k, 8, 0)
        return
    for k in range(n):
        put(o, off + k, 1, v)


def memcmp(a, b, n):
    n = num(n)
    if type(n) is not int:
        n = rt.concretize(PW[0], n)
    if n == 0:
        return 0
    ao, aoff = access(a, n, 1, False)
    bo, boff = access(b, n, 1, False)
    r = 0
    for k in range(n - 1, -1, -1):
        x = num(get(ao, aoff + k, 1))
        y = num(get(bo, boff + k, 1))
        e = eq(8, x, y)
        lt = ult(8, x, y)
        r = ite_w(32, e, r, ite_w(32, lt, 0xffffffff, 1))
    return r


# ---------------------------------------------------------------- vectors
def V2(f, w, a, b):
    return tuple([f(w, num(x), num(y)) for x, y in zip(a, b)])


def VC(pred, w, a, b):
    return tuple([icmp(pred, w, num(x), num(y)) for x, y in zip(a, b)])


def relane(v, w, w2):
    """reinterpret lanes of width w as lanes of width w2"""
    n = len(v)
    if w == w2:
        return v
    if w2 < w:
        k = w // w2
        if w % w2 == 0:
            out = []
            for x in v:
                x = num(x)
                ps = [ext(x, i * w2, w2) for i in range(k)]
                out.extend(reversed(ps) if BIG[0] else ps)
            return tuple(out)
    elif w2 % w == 0:
        k = w2 // w
        out = []
        for i in range(0, n, k):
            g = v[i:i + k]
            if any(x is UNDEF for x in g) and not all(x is UNDEF for x in g):
                g = [fresh(w, "undef") if x is UNDEF else x for x in g]
            out.append(cat([(w, num(x)) for x in (g if BIG[0] else reversed(g))]))
        return tuple(out)
    x = cat([(w, num(x)) for x in (v if BIG[0] else reversed(v))])
    n2 = n * w // w2
    return tuple([ext(x, ((n2 - 1 - i) if BIG[0] else i) * w2, w2) for i in range(n2)])


def bitcast(v, ft, tt):
    if ft[0] == "v" and tt[0] == "v":
        return relane(v, ft[2][1], tt[2][1])
    if ft[0] == "v":
        return relane(v, ft[2][1], tt[1])[0]
    if tt[0] == "v":
        return relane((v,), ft[1], tt[2][1])
    return v


def shuffle(a, b, m):
    n = len(a)
    return tuple([UNDEF if i is UNDEF else (a[i] if i < n else b[i - n]) for i in m])


def SEL(w, c, a, b):
    """select on scalars"""
    if type(c) is int:
        return a if c else b
    if c is UNDEF:
        return UNDEF
    ta = type(a)
    tb = type(b)
    if ta in (P, FuncRef, tuple) or tb in (P, FuncRef, tuple):
        if a is b:
            return a
        if ta is P and tb is P and a.obj is b.obj:
            return P(a.obj, ite_w(PW[0], c, m_(a.off), m_(b.off)))
        return a if rt.branch(c) else b
    if w is None:
        return a if rt.branch(c) else b
    return ite_w(w, c, a, b)


def VSEL(w, c, a, b):
    if type(c) is tuple:
        return tuple([SEL(w, k, x, y) for k, x, y in zip(c, a, b)])
    if type(c) is int:
        return a if c else b
    if c is UNDEF:
        return tuple([UNDEF] * len(a))
    return tuple([SEL(w, c, x, y) for x, y in zip(a, b)])


def sx_idx(i):
    if type(i) is not int:
        i = rt.concretize(64, i)
    return i


# ---------------------------------------------------------------- overflow
def ovf(kind, w, a, b):
    a = num(a)
    b = num(b)
    m = (1 << w) - 1
    if a is UNDEF or b is UNDEF:
        return (UNDEF, UNDEF)
    if type(a) is int and type(b) is int:
        if kind[0] == "u":
            r = a + b if kind == "uadd" else a - b if kind == "usub" else a * b
            return (r & m, 0 if 0 <= r <= m else 1)
        x = a - (1 << w) if a >> (w - 1) else a
        y = b - (1 << w) if b >> (w - 1) else b
        r = x + y if kind == "sadd" else x - y if kind == "ssub" else x * y
        return (r & m, 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)
    if kind == "uadd":
        r = add(w, a, b)
        big = add(w + 1, zext(a, w, w + 1), zext(b, w, w + 1))
        return (r, ext(big, w, 1))
    if kind == "usub":
        return (sub(w, a, b), ult(w, a, b))
    if kind == "umul":
        big = mul(2 * w, zext(a, w, 2 * w), zext(b, w, 2 * w))
        return (mul(w, a, b), not_(1, eq(w, ext(big, w, w), 0)))
    f = {"sadd": add, "ssub": sub, "smul": mul}[kind]
    W = 2 * w if kind == "smul" else w + 1
    big = f(W, sext(a, w, W), sext(b, w, W))
    r = f(w, a, b)
    return (r, not_(1, eq(W, big, sext(r, w, W))))


# ---------------------------------------------------------------- globals
def havoc(o):
    """arbitrary contents for an integer-like object"""
    if any(type(c[2]) in (P, FuncRef) for c in o.data if c is not None):
        return
    i = 0
    while i < o.size:
        n = next(k for k in (8, 4, 2, 1) if i % k == 0 and i + k <= o.size)
        v = var("hav!%s!%d" % (o.name, i), 8 * n)
        rt.havoc[o.name].append(v)
        put(o, i, n, v)
        i += n


class Program:
    """a set of modules linked by symbol name"""

    def __init__(self, modules, name=""):
        self.mods = modules
        self.name = name
        self.funcs = {}
        self.decls = {}
        self.pyf = PyFuncs(self)
        self.fnames = []
        self.findex = {}
        self.fattrs = []
        self.big = modules[0].dl.big
        self.ptr = modules[0].dl.ptr
        self.little = not modules[0].dl.big
        self.gdef = {}
        for m in modules:
            for n, f in m.funcs.items():
                if f.defined:
                    if not f.internal or n not in self.funcs:
                        self.funcs.setdefault(n, f)
                else:
                    self.decls.setdefault(n, f)
            for n, g in m.globals.items():
                if not g.external and n not in self.gdef:
                    self.gdef[n] = g
        for m in modules:
            for n, t in m.aliases.items():
                while t in m.aliases:
                    t = m.aliases[t]
                if n not in self.funcs and t in self.funcs:
                    self.funcs[n] = self.funcs[t]
        self.constobjs = {}
        self.extern_hook = None     # name -> python callable or None
        self.extern_glob = None     # name -> Obj or None

    def activate(self):
        PW[0] = self.ptr * 8
        PB[0] = self.ptr
        BIG[0] = self.big

    def fid(self, name):
        i = self.findex.get(name)
        if i is None:
            i = self.findex[name] = len(self.fnames)
            self.fnames.append(name)
        return i

    def executed(self):
        """names of the functions of the loaded modules that have been executed"""
        return {n for n in self.pyf if n in self.funcs}

    # -- globals
    def glob(self, mod, name):
        key = (id(mod), name)
        o = self.constobjs.get(key)
        if o is not None:
            return o
        o = rt.globs.get(key)
        if o is not None:
            return o
        g = mod.globals.get(name)
        if g is None and name in mod.aliases:
            return self.glob(mod, mod.aliases[name])
        if g is None or g.external:
            for m2 in self.mods:
                g2 = m2.globals.get(name)
                if g2 is not None and not g2.external:
                    return self.glob(m2, name)
            o = self.extern_glob(name) if self.extern_glob else None
            if o is None:
                raise PathEnd("unsupported", "external global " + name)
            rt.globs[key] = o
            return o
        size = mod.dl.size(g.ty)
        o = Obj(name, size, max(1, g.align), "global", g.const)
        o.tls = g.tls
        rt.globs[key] = o
        self.init_mem(mod, o, 0, g.ty, g.init)
        if not g.const and name in rt.havoc:
            havoc(o)
        if g.const and all(c is None or type(c[2]) is int or c[2] is UNDEF or type(c[2]) is FuncRef or
                           (type(c[2]) is P and c[2].obj.const and type(c[2].off) is int and
                            c[2].obj in self.constobjs.values()) for c in o.data):
            # nothing in it refers to the current path or to the current term table
            self.constobjs[key] = o
        return o

    def init_mem(self, mod, o, off, ty, v):
        dl = mod.dl
        k = v[0]
        if k == "u" or ty[0] == "void":
            return
        if k == "z":
            for i in range(dl.size(ty)):
                put(o, off + i, 1, 0)
            return
        if k == "bytes":
            for i, b in enumerate(v[1]):
                put(o, off + i, 1, b)
            return
        if k == "agg":
            if ty[0] == "s":
                for i, (ft, fv) in enumerate(zip(ty[1], v[1])):
                    self.init_mem(mod, o, off + dl.field_offset(ty, i), ft, fv)
            elif ty[0] == "a":
                es = dl.size(ty[2])
                for i, fv in enumerate(v[1]):
                    self.init_mem(mod, o, off + i * es, ty[2], fv)
            else:
                es = ty[2][1] // 8
                for i, fv in enumerate(v[1]):
                    put(o, off + i * es, es, self.const(mod, fv, ty[2]))
            return
        n = dl.size(ty)
        put(o, off, n, self.const(mod, v, ty))

    def gref(self, mod, name):
        if name in mod.funcs or name in self.funcs:
            if name not in mod.globals:
                return FuncRef(name)
        if name in mod.aliases and name not in mod.globals:
            return self.gref(mod, mod.aliases[name])
        return P(self.glob(mod, name), 0)

    def const(self, mod, v, ty):
        """constant operand -> value"""
        k = v[0]
        if k == "k":
            return v[1]
        if k == "g":
            return self.gref(mod, v[1])
        if k == "u":
            if ty[0] in "va":
                return tuple([self.const(mod, v, ty[2])] * ty[1])
            if ty[0] == "s":
                return tuple([self.const(mod, v, f) for f in ty[1]])
            return UNDEF
        if k == "z":
            if ty[0] in "va":
                return tuple([self.const(mod, v, ty[2])] * ty[1])
            if ty[0] == "s":
                return tuple([self.const(mod, v, f) for f in ty[1]])
            return 0
        if k == "agg":
            if ty[0] == "s":
                return tuple([self.const(mod, x, f) for x, f in zip(v[1], ty[1])])
            return tuple([self.const(mod, x, ty[2]) for x in v[1]])
        if k == "bytes":
            return tuple(v[1])
        if k == "gep":
            _, bt, base, idx = v
            p = self.const(mod, base, PTR)
            return gep(p, self.gep_const(mod, bt, idx))
        if k == "cast":
            _, op, ft, x, tt = v
            y = self.const(mod, x, ft)
            return cast(op, y, ft, tt)
        if k == "bin":
            _, op, t, a, b = v
            x = num(self.const(mod, a, t))
            y = num(self.const(mod, b, t))
            return {"add": add, "sub": sub, "mul": mul, "xor": xor_, "shl": shl}[op](t[1], x, y)
        raise PathEnd("unsupported", "constant %r" % (v,))

    def gep_const(self, mod, bt, idx):
        off = 0
        t = None
        for i, (it, iv) in enumerate(idx):
            x = self.const(mod, iv, it)
            if type(x) is int and x >> (it[1] - 1):
                x -= 1 << it[1]
            if i == 0:
                off += x * mod.dl.size(bt)
                t = bt
            elif t[0] == "s":
                off += mod.dl.field_offset(t, x)
                t = t[1][x]
            else:
                t = t[2]
                off += x * mod.dl.size(t)
        return off


def cast(op, y, ft, tt):
    if ft[0] == "v" and op in ("trunc", "zext", "sext"):
        return tuple([cast(op, e, ft[2], tt[2]) for e in y])
    if op == "ptrtoint" or op == "ptrtoaddr":
        a = addr(y)
        if tt[1] < PW[0]:
            return ext(a, 0, tt[1])
        return zext(a, PW[0], tt[1])
    if op == "inttoptr":
        if type(y) is P:
            return y
        if ft[1] != PW[0]:
            y = zext(y, ft[1], PW[0]) if ft[1] < PW[0] else ext(y, 0, PW[0])
        return to_ptr(y)
    if op == "bitcast":
        if ft[0] == "p" or tt[0] == "p":
            return y
        return bitcast(y, ft, tt)
    y = num(y)
    if op == "trunc":
        return ext(y, 0, tt[1])
    if op == "zext":
        return zext(y, ft[1], tt[1])
    if op == "sext":
        return sext(y, ft[1], tt[1])
    raise PathEnd("unsupported", "cast " + op)


# ---------------------------------------------------------------- codegen
BIN = {"add": "add", "sub": "sub", "mul": "mul", "and": "and_", "or": "or_", "xor": "xor_",
       "shl": "shl", "lshr": "lshr", "ashr": "ashr", "udiv": "udiv", "urem": "urem",
       "sdiv": "sdiv", "srem": "srem"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "samesign", "nneg", "fast", "nnan",
         "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile"}


class Unsup(Exception):
    pass


class FnCompiler:
    def __init__(self, prog, f):
        self.prog = prog
        self.f = f
        self.mod = f.mod
        self.dl = f.mod.dl
        self.names = {}
        self.consts = []
        self.ns = {}

    def n(self, name):
        v = self.names.get(name)
        if v is None:
            v = self.names[name] = "x%d" % len(self.names)
        return v

    def op(self, v, ty):
        """python expression of an operand"""
        k = v[0]
        if k == "l":
            return self.n(v[1])
        if k == "k":
            return str(v[1])
        if k == "u" and ty[0] in "ip":
            return "U"
        if k == "z" and ty[0] in "ip":
            return "0"
        if k == "agg":
            ets = ty[1] if ty[0] == "s" else [ty[2]] * len(v[1])
            es = [self.op(x, t) for x, t in zip(v[1], ets)]
            return "(" + ", ".join(es) + ("," if len(es) == 1 else "") + ")"
        if k == "g":
            nm = v[1]
            if (nm in self.mod.funcs or nm in self.prog.funcs) and nm not in self.mod.globals:
                return "FuncRef(%r)" % nm
            return "GR(MOD, %r)" % nm
        c = "K%d" % len(self.consts)
        self.consts.append((v, ty))
        if k in ("u", "z", "bytes"):
            self.ns[c] = self.prog.const(self.mod, v, ty)
            return c
        self.ns[c] = (v, ty)
        return "CONST(MOD, %s[0], %s[1])" % (c, c)

    def typed(self, ts):
        t = parse_type(ts, self.mod.named)
        at = skip_attrs(ts, self.mod.named)
        v = parse_value(ts, t, self.mod.named)
        return t, v, at

    def compile(self):
        f = self.f
        blocks = []
        cur = None
        lines = f.lines
        i = 0
        first = True
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l or l[0] == ";":
                continue
            if l[0] != " ":
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
                if not m:
                    raise Unsup("label " + l)
                cur = ["%" + m.group(1), []]
                blocks.append(cur)
                first = False
                continue
            if first and cur is None:
                cur = ["%entry$" + str(len(f.params)), []]
                blocks.append(cur)
            s = l.strip()
            # multi-line switch / landingpad / invoke / phi
            if s.startswith("switch ") and "]" not in s:
                while True:
                    l2 = lines[i].strip()
                    i += 1
                    s += " " + l2
                    if l2.startswith("]"):
                        break
            if " invoke " in " " + s and " unwind label " not in s:
                s += " " + lines[i].strip()
                i += 1
            if "landingpad" in s:
                while i < len(lines) and lines[i].strip().startswith(("cleanup", "catch", "filter")):
                    i += 1
                cur[1].append("landingpad")
                continue
            cur[1].append(s)
        # the entry block of an unlabelled function is named by the next number
        self.blocks = blocks
        ids = {b[0]: k for k, b in enumerate(blocks)}
        if blocks and blocks[0][0].startswith("%entry$"):
            # unnamed entry block: number = count of unnamed params
            k = sum(1 for (t, nm) in f.params if nm and nm[1:].isdigit())
            ids["%" + str(k)] = 0
        self.ids = ids
        # phi tables
        self.phis = {}
        body = {}
        for k, (nm, ins) in enumerate(blocks):
            rest = []
            ph = []
            for s in ins:
                m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = phi (.*)$', s)
                if m:
                    ts = Toks(tokenize(self.strip_md(m.group(2))))
                    while ts.peek() in FLAGS:
                        ts.next()
                    ty = parse_type(ts, self.mod.named)
                    inc = {}
                    while True:
                        ts.expect("[")
                        v = parse_value(ts, ty, self.mod.named)
                        ts.expect(",")
                        lb = ts.next()
                        ts.expect("]")
                        inc[ids[lb] if lb in ids else lb] = v
                        if not ts.accept(","):
                            break
                    ph.append((m.group(1), ty, inc))
                else:
                    rest.append(s)
            self.phis[k] = ph
            body[k] = rest
        out = []
        params = []
        for (t, nm) in f.params:
            params.append(self.n(nm) if nm else "_")
        fid = self.prog.fid(f.name)
        out.append("def F(%s):" % ", ".join(params))
        out.append(" rt.seen.add(%d)" % fid)
        out.append(" rt.stack.append(%r)" % f.name)
        for (t, nm), at in zip(f.params, f.pattrs):
            if "byval" in at:
                out.append(" %s = BYVAL(%s, %d, %d)" % (self.n(nm), self.n(nm), self.dl.size(at["byval"]),
                                                      at.get("align", self.dl.align(at["byval"]))))
        codes = {}
        for k in range(len(blocks)):
            self.lines = []
            self.curbb = k
            for s in body[k]:
                self.ins(s)
            codes[k] = self.lines
        if len(blocks) == 1:
            out.extend(" " + l for l in codes[0])
        else:
            out.append(" bb = 0")
            out.append(" while True:")
            out.append("  rt.steps += 1")
            out.append("  if rt.steps > rt.step_limit: raise PathEnd('limit', 'step limit')")

            def tree(lo, hi, ind):
                if hi - lo <= 3:
                    for k in range(lo, hi):
                        if k == lo:
                            out.append("%sif bb == %d:" % (ind, k))
                        else:
                            out.append("%selif bb == %d:" % (ind, k))
                        if not codes[k]:
                            out.append(ind + " pass")
                        out.extend(ind + " " + l for l in codes[k])
                else:
                    mid = (lo + hi) // 2
                    out.append("%sif bb < %d:" % (ind, mid))
                    tree(lo, mid, ind + " ")
                    out.append("%selse:" % ind)
                    tree(mid, hi, ind + " ")
            tree(0, len(blocks), "  ")
        src = "\n".join(out)
        ns = dict(NS)
        ns.update(self.ns)
        ns["MOD"] = self.mod
        ns["GR"] = self.prog.gref
        ns["CONST"] = self.prog.const
        ns["FT"] = self.prog.pyf
        ns["PROG"] = self.prog
        exec(compile(src, "<%s>" % f.name, "exec"), ns)
        return ns["F"], src

    @staticmethod
    def strip_md(s):
        j = s.find(", !")
        if j >= 0:
            s = s[:j]
        return s

    def emit(self, s):
        self.lines.append(s)

    def goto(self, lb, ind=""):
        k = self.ids[lb]
        ph = self.phis[k]
        if ph:
            ls = []
            rs = []
            for (nm, ty, inc) in ph:
                v = inc.get(self.curbb)
                if v is None:
                    raise Unsup("phi")
                ls.append(self.n(nm))
                rs.append(self.op(v, ty))
            if len(ls) == 1:
                if ls[0] != rs[0]:
                    self.emit(ind + "%s = %s" % (ls[0], rs[0]))
            else:
                self.emit(ind + "%s = %s" % (", ".join(ls), ", ".join(rs)))
        self.emit(ind + "bb = %d" % k)

    def ins(self, s):
        try:
            self.ins0(s)
        except (ParseError, Unsup, KeyError, IndexError, ValueError) as e:
            self.emit("raise PathEnd('unsupported', %r)" % ("%s: %s" % (e, s[:160])))

    def ins0(self, s):
        if s == "landingpad":
            self.emit("raise PathEnd('unsupported', 'landing pad')")
            return
        if s == "unreachable":
            self.emit("raise PathEnd('ub', 'unreachable code reached in %s' % where())")
            return
        if s.startswith("ret "):
            ts = Toks(tokenize(self.strip_md(s)))
            ts.next()
            t = parse_type(ts, self.mod.named)
            self.emit("rt.stack.pop()")
            if t[0] == "void":
                self.emit("return None")
            else:
                self.emit("return " + self.op(parse_value(ts, t, self.mod.named), t))
            return
        if s.startswith("br "):
            ts = Toks(tokenize(self.strip_md(s)))
            ts.next()
            if ts.peek() == "label":
                ts.next()
                self.goto(ts.next())
                self.emit("continue")
                return
            t, v, _ = self.typed(ts)
            ts.expect(","); ts.expect("label")
            a = ts.next()
            ts.expect(","); ts.expect("label")
            b = ts.next()
            c = self.op(v, t)
            if c.isdigit():
                self.goto(a if int(c) else b)
            else:
                self.emit("if %s if type(%s) is int else rt.branch(%s):" % (c, c, c))
                self.goto(a, " ")
                self.emit("else:")
                self.goto(b, " ")
            self.emit("continue")
            return
        if s.startswith("switch "):
            ts = Toks(tokenize(self.strip_md(s)))
            ts.next()
            t, v, _ = self.typed(ts)
            ts.expect(","); ts.expect("label")
            dflt = ts.next()
            ts.expect("[")
            cases = []
            while not ts.accept("]"):
                ct = parse_type(ts, self.mod.named)
                cv = parse_value(ts, ct, self.mod.named)
                ts.expect(","); ts.expect("label")
                cases.append((cv[1], ts.next()))
            self.emit("s_ = SWITCH(%d, %s, %r)" % (t[1], self.op(v, t), tuple(c for c, _ in cases)))
            kw = "if"
            for cv, lb in cases:
                self.emit("%s s_ == %d:" % (kw, cv))
                self.goto(lb, " ")
                kw = "elif"
            if cases:
                self.emit("else:")
                self.goto(dflt, " ")
            else:
                self.goto(dflt)
            self.emit("continue")
            return
        if s.startswith("store "):
            return self.i_store(s)
        m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', s)
        if m:
            dst = self.n(m.group(1))
            s = m.group(2)
        else:
            dst = None
        w0 = s.split(" ", 1)[0]
        if w0 in ("call", "tail", "musttail", "notail", "invoke"):
            return self.i_call(dst, s)
        if w0 == "resume":
            self.emit("raise PathEnd('unsupported', 'resume')")
            return
        if w0 == "fence":
            return
        s = self.strip_md(s)
        ts = Toks(tokenize(s))
        o = ts.next()
        while ts.peek() in FLAGS:
            ts.next()
        E = self.emit
        if o in BIN:
            t = parse_type(ts, self.mod.named)
            a = self.op(parse_value(ts, t, self.mod.named), t)
            ts.expect(",")
            b = self.op(parse_value(ts, t, self.mod.named), t)
            if t[0] == "v":
                E("%s = V2(%s, %d, %s, %s)" % (dst, BIN[o], t[2][1], a, b))
            elif t[0] != "i":
                raise Unsup("type")
            else:
                E("%s = %s(%d, num(%s), num(%s))" % (dst, BIN[o], t[1], a, b) if not (
                    a.isdigit() or b.isdigit()) else "%s = %s(%d, %s, %s)" % (
                        dst, BIN[o], t[1], a if a.isdigit() else "num(%s)" % a,
                        b if b.isdigit() else "num(%s)" % b))
            return
        if o == "icmp":
            while ts.peek() in FLAGS:
                ts.next()
            pred = ts.next()
            t = parse_type(ts, self.mod.named)
            a = self.op(parse_value(ts, t, self.mod.named), t)
            ts.expect(",")
            b = self.op(parse_value(ts, t, self.mod.named), t)
            if t[0] == "v":
                E("%s = VC(%r, %d, %s, %s)" % (dst, pred, t[2][1], a, b))
            elif t[0] == "p":
                E("%s = icmp_p(%r, %s, %s)" % (dst, pred, a, b))
            else:
                E("%s = ICMP(%r, %d, %s, %s)" % (dst, pred, t[1], a, b))
            return
        if o in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"):
            t, v, _ = self.typed(ts)
            ts.expect("to")
            t2 = parse_type(ts, self.mod.named)
            a = self.op(v, t)
            if t[0] == "i" and t2[0] == "i" and o in ("trunc", "zext", "sext"):
                if o == "trunc":
                    E("%s = ext(num(%s), 0, %d)" % (dst, a, t2[1]))
                else:
                    E("%s = %s(num(%s), %d, %d)" % (dst, o, a, t[1], t2[1]))
            else:
                E("%s = cast(%r, %s, %r, %r)" % (dst, o, a, t, t2))
            return
        if o == "freeze":
            t, v, _ = self.typed(ts)
            E("%s = FREEZE(%s, %r)" % (dst, self.op(v, t), t))
            return
        if o == "select":
            ct, cv, _ = self.typed(ts)
            ts.expect(",")
            t, a, _ = self.typed(ts)
            ts.expect(",")
            t2, b, _ = self.typed(ts)
            c = self.op(cv, ct)
            if t[0] == "v":
                E("%s = VSEL(%d, %s, %s, %s)" % (dst, t[2][1] if t[2][0] == "i" else PW[0], c,
                                                 self.op(a, t), self.op(b, t)))
            else:
                E("%s = SEL(%s, %s, %s, %s)" % (dst, t[1] if t[0] == "i" else PW[0] if t[0] == "p" else None,
                                                c, self.op(a, t), self.op(b, t)))
            return
        if o == "extractvalue":
            t, v, _ = self.typed(ts)
            e = self.op(v, t)
            while ts.accept(","):
                e += "[%s]" % ts.next()
            E("%s = %s" % (dst, e))
            return
        if o == "insertvalue":
            t, v, _ = self.typed(ts)
            ts.expect(",")
            t2, v2, _ = self.typed(ts)
            path = []
            while ts.accept(","):
                path.append(int(ts.next()))
            E("%s = INSV(%s, %s, %r)" % (dst, self.op(v, t), self.op(v2, t2), path))
            return
        if o == "extractelement":
            t, v, _ = self.typed(ts)
            ts.expect(",")
            t2, v2, _ = self.typed(ts)
            E("%s = %s[sx_idx(%s)]" % (dst, self.op(v, t), self.op(v2, t2)))
            return
        if o == "insertelement":
            t, v, _ = self.typed(ts)
            ts.expect(",")
            t2, v2, _ = self.typed(ts)
            ts.expect(",")
            t3, v3, _ = self.typed(ts)
            E("%s = INSV(%s, %s, [sx_idx(%s)])" % (dst, self.op(v, t), self.op(v2, t2), self.op(v3, t3)))
            return
        if o == "shufflevector":
            t, v, _ = self.typed(ts)
            ts.expect(",")
            t2, v2, _ = self.typed(ts)
            ts.expect(",")
            t3, v3, _ = self.typed(ts)
            E("%s = shuffle(%s, %s, %s)" % (dst, self.op(v, t), self.op(v2, t2), self.op(v3, t3)))
            return
        if o == "alloca":
            t = parse_type(ts, self.mod.named)
            cnt = "1"
            al = self.dl.align(t)
            while ts.accept(","):
                if ts.peek() == "align":
                    ts.next()
                    al = int(ts.next())
                elif ts.peek() == "addrspace":
                    break
                else:
                    ct, cv, _ = self.typed(ts)
                    cnt = self.op(cv, ct)
            self.nalloca = getattr(self, "nalloca", 0) + 1
            E("%s = ALLOCA(%d, %s, %d, %d)" % (dst, self.dl.size(t), cnt, al, self.nalloca))
            return
        if o == "load":
            atomic = ts.accept("atomic")
            while ts.peek() in FLAGS:
                ts.next()
            t = parse_type(ts, self.mod.named)
            ts.expect(",")
            pt, pv, _ = self.typed(ts)
            al = self.dl.align(t)
            while ts.i < len(ts.t):
                if ts.next() == "align":
                    al = int(ts.next())
            p = self.op(pv, pt)
            E("%s = %s" % (dst, self.load_expr(t, p, al)))
            return
        if o == "getelementptr":
            while ts.peek() in FLAGS:
                ts.next()
            bt = parse_type(ts, self.mod.named)
            ts.expect(",")
            pt, pv, _ = self.typed(ts)
            if pt[0] != "p":
                raise Unsup("vector gep")
            coff = 0
            terms = []
            t = None
            first = True
            while ts.accept(","):
                it, iv, _ = self.typed(ts)
                if it[0] != "i":
                    raise Unsup("gep index")
                if first:
                    sc = self.dl.size(bt)
                    t = bt
                    first = False
                elif t[0] == "s":
                    k = iv[1]
                    coff += self.dl.field_offset(t, k)
                    t = t[1][k]
                    continue
                else:
                    t = t[2]
                    sc = self.dl.size(t)
                if iv[0] == "k":
                    x = iv[1]
                    if x >> (it[1] - 1):
                        x -= 1 << it[1]
                    coff += x * sc
                else:
                    terms.append("sidx(%d, %s, %d)" % (it[1], self.op(iv, it), sc))
            e = self.op(pv, pt)
            for x in terms:
                e = "gep(%s, %s)" % (e, x)
            if coff or not terms:
                e = "gep(%s, %d)" % (e, coff)
            E("%s = %s" % (dst, e))
            return
        if o == "atomicrmw":
            while ts.peek() in FLAGS:
                ts.next()
            kind = ts.next()
            pt, pv, _ = self.typed(ts)
            ts.expect(",")
            t, v, _ = self.typed(ts)
            E("%s = RMW(%r, %s, %s, %d)" % (dst, kind, self.op(pv, pt), self.op(v, t), t[1]))
            return
        if o == "cmpxchg":
            ts.accept("weak")
            while ts.peek() in FLAGS:
                ts.next()
            pt, pv, _ = self.typed(ts)
            ts.expect(",")
            t, v, _ = self.typed(ts)
            ts.expect(",")
            t2, v2, _ = self.typed(ts)
            w = t[1] if t[0] == "i" else PW[0]
            E("%s = CMPX(%s, %s, %s, %d)" % (dst, self.op(pv, pt), self.op(v, t), self.op(v2, t2), w))
            return
        raise Unsup("instruction " + o)

    def load_expr(self, t, p, al):
        if t[0] == "i":
            return "LD(%s, %d, %d, %d)" % (p, (t[1] + 7) // 8, al, t[1])
        if t[0] == "p":
            return "LDP(%s, %d)" % (p, al)
        if t[0] == "v":
            if t[2][0] != "i":
                raise Unsup("vector of pointers")
            return "LDV(%s, %d, %d, %d)" % (p, t[1], t[2][1], al)
        if t[0] == "s":
            es = [self.load_expr(f, "gep(%s, %d)" % (p, self.dl.field_offset(t, i)), 1)
                  for i, f in enumerate(t[1])]
            return "(" + ", ".join(es) + ("," if len(es) == 1 else "") + ")"
        if t[0] == "a":
            s = self.dl.size(t[2])
            es = [self.load_expr(t[2], "gep(%s, %d)" % (p, i * s), 1) for i in range(t[1])]
            return "(" + ", ".join(es) + ("," if len(es) == 1 else "") + ")"
        raise Unsup("load type")

    def i_store(self, s):
        ts = Toks(tokenize(self.strip_md(s)))
        ts.next()
        ts.accept("atomic")
        while ts.peek() in FLAGS:
            ts.next()
        t, v, _ = self.typed(ts)
        ts.expect(",")
        pt, pv, _ = self.typed(ts)
        al = self.dl.align(t)
        while ts.i < len(ts.t):
            if ts.next() == "align":
                al = int(ts.next())
        self.store_code(t, self.op(pv, pt), self.op(v, t), al)

    def store_code(self, t, p, v, al):
        if t[0] == "i":
            self.emit("ST(%s, %s, %d, %d, %d)" % (p, v, (t[1] + 7) // 8, al, t[1]))
        elif t[0] == "p":
            self.emit("ST(%s, %s, %d, %d, %d)" % (p, v, self.dl.ptr, al, self.dl.ptr * 8))
        elif t[0] == "v":
            self.emit("STV(%s, %s, %d, %d, %d)" % (p, v, t[1], t[2][1], al))
        elif t[0] == "s":
            for i, f in enumerate(t[1]):
                self.store_code(f, "gep(%s, %d)" % (p, self.dl.field_offset(t, i)), "%s[%d]" % (v, i), 1)
        elif t[0] == "a":
            s = self.dl.size(t[2])
            for i in range(t[1]):
                self.store_code(t[2], "gep(%s, %d)" % (p, i * s), "%s[%d]" % (v, i), 1)
        else:
            raise Unsup("store type")

    def i_call(self, dst, s):
        ts = Toks(tokenize(s))
        inv = False
        while True:
            x = ts.peek()
            if x in ("tail", "musttail", "notail"):
                ts.next()
            elif x == "call":
                ts.next()
            elif x == "invoke":
                inv = True
                ts.next()
            elif x in FLAGS or x in ("fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "tailcc", "swiftcc"):
                ts.next()
            else:
                break
        skip_attrs(ts, self.mod.named)
        rett = parse_type(ts, self.mod.named)
        if ts.peek() == "(":      # function type
            d = 0
            while True:
                y = ts.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
        callee = ts.next()
        if callee == "asm":
            raise Unsup("inline asm")
        ts.expect("(")
        args = []
        tys = []
        if not ts.accept(")"):
            while True:
                t = parse_type(ts, self.mod.named)
                skip_attrs(ts, self.mod.named)
                if t[0] == "md":
                    # metadata argument: skip to the comma or parenthesis
                    d = 0
                    while not (d == 0 and ts.peek() in (",", ")")):
                        y = ts.next()
                        if y in "({" or y.endswith("{"):
                            d += 1
                        elif y in ")}":
                            d -= 1
                    args.append("None")
                    tys.append(t)
                else:
                    v = parse_value(ts, t, self.mod.named)
                    args.append(self.op(v, t))
                    tys.append(t)
                if ts.accept(")"):
                    break
                ts.expect(",")
        nxt = None
        if inv:
            toks = ts.t
            j = max(k for k in range(len(toks)) if toks[k] == "to")
            nxt = toks[j + 2]
        a = ", ".join(args)
        pre = "%s = " % dst if dst else ""
        if callee[0] == "%":
            self.emit("%sCALLI(PROG, %s)(%s)" % (pre, self.n(callee), a))
        elif callee.startswith("@llvm."):
            h = intrinsic(callee[1:], tys, rett, self)
            if h is None:
                raise Unsup("intrinsic " + callee)
            if h != "":
                if isinstance(h, str):
                    self.emit("%s%s" % (pre, h.format(*args)))
                else:
                    nm = "I%d" % len(self.ns)
                    self.ns[nm] = h
                    self.emit("%s%s(%s)" % (pre, nm, a))
        else:
            self.emit("%sFT[%r](%s)" % (pre, callee, a))
        if inv:
            self.goto(nxt)
            self.emit("continue")


def override(prog, name):
    """library functions whose model is simpler than their code"""
    ids = idents(name)
    if "maybe_is_nonoverlapping" in ids and "runtime" in ids:
        def nonoverlap(src, dst, size, count):
            if type(src) is P and type(dst) is P and src.obj is not dst.obj:
                return 1
            if type(src) is P and type(dst) is P and all(type(x) is int for x in (src.off, dst.off, size, count)):
                return 1 if abs(src.off - dst.off) >= size * count else 0
            if type(size) is int and type(count) is int and size * count == 0:
                return 1
            n = mul(PW[0], num(size), num(count))
            a, b = num(src), num(dst)
            return and_(1, not_(1, ult(PW[0], sub(PW[0], a, b), n)), not_(1, ult(PW[0], sub(PW[0], b, a), n)))
        return nonoverlap
    return None


class PyFuncs(dict):
    def __init__(self, prog):
        dict.__init__(self)
        self.prog = prog

    def __missing__(self, name):
        prog = self.prog
        f = prog.funcs.get(name)
        o = override(prog, name)
        if o is not None:
            self[name] = o
            return o
        if f is None:
            for m in prog.mods:
                if name in m.aliases:
                    r = self[name] = self[m.aliases[name]]
                    return r
            h = None
            if prog.extern_hook:
                h = prog.extern_hook(prog, name)
            if h is None:
                h = default_extern(prog, name)
            self[name] = h
            return h
        try:
            fn, src = FnCompiler(prog, f).compile()
        except (ParseError, Unsup) as e:
            msg = "%s in %s" % (e, name)

            def fn(*a):
                raise PathEnd("unsupported", msg)
        self[name] = fn
        return fn


def CALLI(prog, p):
    if type(p) is FuncRef:
        return prog.pyf[p.name]
    raise PathEnd("unsupported" if p is not UNDEF else "undef", "indirect call through %r" % (p,))


def SWITCH(w, x, vals):
    if type(x) is int:
        return x
    if x is UNDEF:
        raise PathEnd("undef", "switch on an undefined value")
    x = num(x)
    for v in vals:
        if rt.branch(eq(w, x, v)):
            return v
    return -1


def ICMP(pred, w, a, b):
    ta = type(a)
    tb = type(b)
    if ta is P and tb is P:
        return icmp_p(pred, a, b)
    return icmp(pred, w, num(a), num(b))


def FREEZE(v, t):
    if v is UNDEF:
        return fresh(t[1] if t[0] == "i" else PW[0], "freeze")
    if type(v) is tuple:
        ets = t[1] if t[0] == "s" else [t[2]] * len(v)
        return tuple([FREEZE(x, e) for x, e in zip(v, ets)])
    return v


def INSV(v, x, path):
    if v is UNDEF:
        raise PathEnd("unsupported", "insertvalue into scalar undef")
    l = list(v)
    if len(path) == 1:
        l[path[0]] = x
    else:
        l[path[0]] = INSV(l[path[0]], x, path[1:])
    return tuple(l)


def ALLOCA(size, cnt, al, k):
    if type(cnt) is not int:
        cnt = rt.concretize(PW[0], cnt)
    o = rt.new_obj("stack", size * cnt, al, "stack")
    o.frame = (rt.inside, len(rt.stack), rt.stack[-1] if rt.stack else "", k)
    return P(o, 0)


def BYVAL(p, size, al):
    q = P(rt.new_obj("byval", size, al, "stack"), 0)
    memcpy(q, p, size)
    return q


def RMW(kind, p, v, w):
    access(p, w // 8, 1, False)
    keep, rt.preempt = rt.preempt, None
    try:
        return rmw(kind, p, v, w)
    finally:
        rt.preempt = keep


def rmw(kind, p, v, w):
    old = LD(p, w // 8, 1, w)
    a = num(old)
    b = num(v)
    if kind == "xchg":
        new = v
    elif kind in ("add", "sub", "and", "or", "xor"):
        new = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor_}[kind](w, a, b)
    elif kind in ("umax", "umin"):
        c = ult(w, a, b)
        new = ite_w(w, c, b, a) if kind == "umax" else ite_w(w, c, a, b)
    else:
        raise PathEnd("unsupported", "atomicrmw " + kind)
    ST(p, new, w // 8, 1, w)
    return old


def CMPX(p, c, n, w):
    access(p, w // 8, 1, False)
    keep, rt.preempt = rt.preempt, None
    try:
        return cmpx(p, c, n, w)
    finally:
        rt.preempt = keep


def cmpx(p, c, n, w):
    old = LD(p, w // 8, 1, w)
    e = ptr_eq(old, c) if (type(old) is P or type(c) is P) else eq(w, num(old), num(c))
    if rt.branch(e):
        ST(p, n, w // 8, 1, w)
        return (old, 1)
    return (old, 0)


# ---------------------------------------------------------------- intrinsics
def vmapn(f):
    """lift a scalar function (w known) over vectors"""
    return f


def intrinsic(name, tys, rett, fc):
    """returns '' (no-op), an expression template, a Python callable, or None"""
    n = name[5:]
    if n.startswith(("lifetime.", "experimental.noalias", "dbg.", "invariant.", "donothing",
                     "sideeffect", "prefetch", "var.annotation")):
        return ""
    if n.startswith("assume"):
        def assume(c, *bundle):
            if type(c) is int:
                if not c:
                    raise PathEnd("ub", "assumption violated in " + where())
                return
            if c is UNDEF:
                return
            if not rt.branch(c):
                raise PathEnd("ub", "assumption violated in " + where())
        return assume
    if n.startswith(("memcpy.", "memmove.")):
        return lambda d, s, k, v=0: memcpy(d, s, k)
    if n.startswith("memset."):
        return lambda d, x, k, v=0: memset(d, x, k)
    if n.startswith(("expect.", "launder.", "strip.", "ptr.annotation", "ssa.copy", "annotation")):
        return lambda a, *r: a
    if n.startswith("is.constant"):
        return lambda a: 0
    if n.startswith("threadlocal.address"):
        return lambda p: tls(p)
    if n.startswith("trap"):
        return lambda *a: panic("trap")
    if n.startswith("ubsantrap"):
        return lambda *a: panic("ubsantrap")
    if n.startswith("objectsize"):
        return lambda *a: (1 << rett[1]) - 1
    if n.startswith("load.relative"):
        def lr(p, o):
            x = LD(gep(p, sx(o)), 4, 1, 32)
            x = num(x)
            if type(x) is int:
                return gep(p, x - (1 << 32) if x >> 31 else x)
            # difference of two addresses: (target - table)
            return to_ptr_rel(p, x)
        return lr
    m = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)$", n)
    if m:
        k = m.group(1) + m.group(2)
        w = int(m.group(3))
        return lambda a, b: ovf(k, w, a, b)
    m = re.match(r"vector\.reduce\.(add|or|and|xor|mul|umax|umin)\.v\d+i(\d+)$", n)
    if m:
        f = {"add": add, "or": or_, "and": and_, "xor": xor_, "mul": mul,
             "umax": lambda w, a, b: ite_w(w, ult(w, a, b), b, a),
             "umin": lambda w, a, b: ite_w(w, ult(w, a, b), a, b)}[m.group(1)]
        w = int(m.group(2))

        def red(v):
            r = v[0]
            for x in v[1:]:
                r = f(w, r, x)
            return r
        return red
    # element-wise scalar functions
    m = re.match(r"([a-z.]+?)\.(v(\d+))?i(\d+)$", n)
    if m and m.group(1) in SCALARS:
        f = SCALARS[m.group(1)]
        w = int(m.group(4))
        if m.group(3):
            # trailing scalar flags (ctlz's i1) stay scalar
            return lambda *a: tuple([f(w, *[num(x[i]) if type(x) is tuple else x for x in a])
                                     for i in range(len(a[0]))])
        return lambda *a: f(w, *[num(x) for x in a])
    m = re.match(r"masked\.(load|store)\.v(\d+)i(\d+)\.p0$", n)
    if m:
        lanes = int(m.group(2))
        w = int(m.group(3))
        if m.group(1) == "load":
            if len(tys) == 4:
                return lambda p, al, mask, pt: mload(p, al, mask, pt, lanes, w)
            return lambda p, mask, pt: mload(p, 1, mask, pt, lanes, w)
        if len(tys) == 4:
            return lambda v, p, al, mask: mstore(v, p, mask, lanes, w)
        return lambda v, p, mask: mstore(v, p, mask, lanes, w)
    if n.startswith("x86."):
        return x86(n[4:], tys, rett)
    if n.startswith("aarch64."):
        return aarch64(n[8:], tys, rett)
    if n.startswith("wasm."):
        return wasm(n[5:], tys, rett)
    return None


def sx(o):
    return o


def to_ptr_rel(p, x):
    # the 32-bit difference target - table: recover the target object
    full = None
    for vn, (o, _) in rt.bases.items():
        d = ext(sub(PW[0], o.base, addr(p)), 0, 32)
        r = sub(32, x, d)
        if type(r) is int:
            return P(o, r - (1 << 32) if r >> 31 else r)
    raise PathEnd("unsupported", "relative pointer")


def _clz(w, x, z=0):
    if type(x) is int:
        return w - x.bit_length()
    if x is UNDEF:
        return UNDEF
    r = w
    for i in range(w):
        r = ite_w(w, ext(x, i, 1), w - 1 - i, r)
    return r


def _ctz(w, x, z=0):
    if type(x) is int:
        return (x & -x).bit_length() - 1 if x else w
    if x is UNDEF:
        return UNDEF
    r = w
    for i in range(w - 1, -1, -1):
        r = ite_w(w, ext(x, i, 1), i, r)
    return r


def _bswap(w, x):
    if x is UNDEF:
        return x
    return cat([(8, ext(x, 8 * i, 8)) for i in range(w // 8)])


def _bitrev(w, x):
    if x is UNDEF:
        return x
    return cat([(1, ext(x, i, 1)) for i in range(w)])


def _abs(w, x, p=0):
    return ite_w(w, slt(w, x, 0), sub(w, 0, x), x) if x is not UNDEF else x


def _cmp3(lt):
    def f(w, a, b):
        # ucmp/scmp: result width differs from operand width; handled by caller
        raise PathEnd("unsupported", "three-way compare")
    return f


SCALARS = {
    "umin": lambda w, a, b: ite_w(w, ult(w, a, b), a, b),
    "umax": lambda w, a, b: ite_w(w, ult(w, a, b), b, a),
    "smin": lambda w, a, b: ite_w(w, slt(w, a, b), a, b),
    "smax": lambda w, a, b: ite_w(w, slt(w, a, b), b, a),
    "usub.sat": lambda w, a, b: ite_w(w, ult(w, a, b), 0, sub(w, a, b)),
    "uadd.sat": lambda w, a, b: ite_w(w, ovf("uadd", w, a, b)[1], (1 << w) - 1, add(w, a, b)),
    "fshl": fshl, "fshr": fshr, "ctpop": ctpop, "ctlz": _clz, "cttz": _ctz,
    "bswap": _bswap, "bitreverse": _bitrev, "abs": _abs,
}


def mload(p, al, mask, pt, lanes, w):
    out = []
    for i in range(lanes):
        c = mask[i]
        if type(c) is not int:
            c = rt.branch(c)
        out.append(LD(gep(p, i * w // 8), w // 8, 1, w) if c else pt[i])
    return tuple(out)


def mstore(v, p, mask, lanes, w):
    for i in range(lanes):
        c = mask[i]
        if type(c) is not int:
            c = rt.branch(c)
        if c:
            ST(gep(p, i * w // 8), v[i], w // 8, 1, w)


def tbl(table, idx, zero):
    """byte table lookup with a concrete or symbolic index"""
    n = len(table)
    if type(idx) is int:
        return table[idx] if idx < n else 0
    if idx is UNDEF:
        return UNDEF
    r = 0
    for i in range(n - 1, -1, -1):
        r = ite_w(8, eq(8, idx, i), table[i], r)
    return r


def x86(n, tys, rett):
    m = re.match(r"(?:ssse3|avx2)\.pshuf\.b(\.128)?$", n)
    if m:
        def pshufb(a, b):
            out = []
            for i in range(len(a)):
                k = b[i]
                base = i & ~15
                if type(k) is int:
                    out.append(0 if k & 0x80 else a[base + (k & 15)])
                elif k is UNDEF:
                    out.append(UNDEF)
                else:
                    v = tbl(a[base:base + 16], zext(ext(k, 0, 4), 4, 8), 0)
                    out.append(ite_w(8, ext(k, 7, 1), 0, v))
            return tuple(out)
        return pshufb
    if n in ("avx2.permd",):
        def permd(a, b):
            out = []
            for k in b:
                if type(k) is not int:
                    k = rt.concretize(32, ext(k, 0, 3))
                out.append(a[k & 7])
            return tuple(out)
        return permd
    m = re.match(r"(?:sse2|avx2)\.p(sll|srl|sra)(i?)\.([wdq])$", n)
    if m:
        w = {"w": 16, "d": 32, "q": 64}[m.group(3)]
        kind = m.group(1)

        def sh(a, c):
            if m.group(2):
                cnt = c
                cw = 32
            else:
                cnt = relane(c, 128 // len(c), 64)[0]
                cw = 64
            return tuple([xshift(kind, w, x, cnt, cw) for x in a])
        return sh
    m = re.match(r"avx2\.p(sll|srl|sra)v\.([dq])(\.256)?$", n)
    if m:
        w = {"d": 32, "q": 64}[m.group(2)]
        kind = m.group(1)
        return lambda a, c: tuple([xshift(kind, w, x, y, w) for x, y in zip(a, c)])
    m = re.match(r"avx2\.maskload\.([dq])(\.256)?$", n)
    if m:
        w = {"d": 32, "q": 64}[m.group(1)]
        return lambda p, mask: mload(p, 1, tuple([ext(x, w - 1, 1) for x in mask]),
                                     (0,) * len(mask), len(mask), w)
    if re.match(r"(sse2|avx2)\.pmulu\.dq$", n):
        def pmuludq(a, b):
            a2 = relane(a, 32, 64)
            b2 = relane(b, 32, 64)
            return tuple([mul(64, and_(64, x, 0xffffffff), and_(64, y, 0xffffffff)) for x, y in zip(a2, b2)])
        return pmuludq
    if n == "sse41.pblendvb":
        return lambda a, b, c: tuple([ite_w(8, ext(k, 7, 1), y, x) for x, y, k in zip(a, b, c)])
    if n in ("avx.vzeroupper", "avx.vzeroall", "sse2.pause", "sse2.lfence", "sse2.mfence", "sse.sfence"):
        return lambda: None
    return None


def xshift(kind, w, x, c, cw):
    if x is UNDEF or c is UNDEF:
        return UNDEF
    if type(c) is int:
        if c >= w:
            if kind == "sra":
                return ashr(w, x, w - 1)
            return 0
        return {"sll": shl, "srl": lshr, "sra": ashr}[kind](w, x, c)
    big = not_(1, ult(cw, c, w))
    c2 = ext(c, 0, w) if cw >= w else zext(c, cw, w)
    r = {"sll": shl, "srl": lshr, "sra": ashr}[kind](w, x, c2)
    return ite_w(w, big, 0 if kind != "sra" else ashr(w, x, w - 1), r)


def aarch64(n, tys, rett):
    m = re.match(r"neon\.(ushl|sshl)\.v(\d+)i(\d+)$", n)
    if m:
        w = int(m.group(3))
        sg = m.group(1) == "sshl"

        def ushl(a, b):
            out = []
            for x, c in zip(a, b):
                c = ext(c, 0, 8) if c is not UNDEF else UNDEF
                if x is UNDEF or c is UNDEF:
                    out.append(UNDEF)
                    continue
                if type(c) is not int:
                    c = rt.concretize(8, c)
                if c >= 128:
                    k = 256 - c
                    if sg:
                        out.append(ashr(w, x, min(k, w - 1)))
                    else:
                        out.append(lshr(w, x, k) if k < w else 0)
                else:
                    out.append(shl(w, x, c) if c < w else 0)
            return tuple(out)
        return ushl
    m = re.match(r"neon\.tbl(\d)\.v(\d+)i8$", n)
    if m:
        k = int(m.group(1))

        def tb(*a):
            table = ()
            for t in a[:k]:
                table += t
            return tuple([tbl(table, i, 0) for i in a[k]])
        return tb
    m = re.match(r"neon\.(umull|pmull)\.v(\d+)i(\d+)$", n)
    if m and m.group(1) == "umull":
        w = int(m.group(3))
        return lambda a, b: tuple([mul(w, zext(x, w // 2, w), zext(y, w // 2, w)) for x, y in zip(a, b)])
    m = re.match(r"neon\.ld1x(\d)\.v(\d+)i(\d+)\.p0$", n)
    if m:
        k, l, w = int(m.group(1)), int(m.group(2)), int(m.group(3))
        return lambda p: tuple([LDV(gep(p, i * l * w // 8), l, w, 1) for i in range(k)])
    m = re.match(r"neon\.st1x(\d)\.v(\d+)i(\d+)\.p0$", n)
    if m:
        k, l, w = int(m.group(1)), int(m.group(2)), int(m.group(3))

        def st1(*a):
            for i in range(k):
                STV(gep(a[k], i * l * w // 8), a[i], l, w, 1)
        return st1
    m = re.match(r"neon\.(addp|uaddlv|rbit)", n)
    if m:
        return None
    if n.startswith("isb") or n.startswith("dmb"):
        return lambda *a: None
    return None


def wasm(n, tys, rett):
    if n == "swizzle":
        return lambda a, b: tuple([tbl(a, i, 0) for i in b])
    if n == "shuffle":
        return lambda a, b, *m: shuffle(a, b, [x & 31 for x in m])
    m = re.match(r"(bitselect)\.v\d+i(\d+)$", n)
    if m:
        w = int(m.group(2))
        return lambda a, b, c: tuple([or_(w, and_(w, x, k), and_(w, y, not_(w, k))) for x, y, k in zip(a, b, c)])
    m = re.match(r"(anytrue|alltrue)\.v\d+i(\d+)$", n)
    if m:
        w = int(m.group(2))

        def anyt(v):
            r = 0 if m.group(1) == "anytrue" else 1
            for x in v:
                nz = not_(1, eq(w, x, 0))
                r = or_(1, r, nz) if m.group(1) == "anytrue" else and_(1, r, nz)
            return zext(r, 1, 32)
        return anyt
    return None


def panic(msg):
    raise PathEnd("panic", msg)


def tls(p):
    return p


# ---------------------------------------------------------------- externals
def default_extern(prog, name):
    """models of functions that are not in the loaded modules"""
    d = prog.decls.get(name)
    attrs = ""
    if d is not None:
        attrs = d.mod.fattr(d)
    ids = idents(name)
    last = ids[-1] if ids else name
    sym = name[1:].strip('"')
    if sym in ("memcpy", "memmove"):
        def mc(a, b, n):
            memcpy(a, b, n)
            return a
        return mc
    if sym == "memset":
        def ms(a, v, n):
            memset(a, ext(num(v), 0, 8), n)
            return a
        return ms
    if sym in ("memcmp", "bcmp"):
        return memcmp
    if sym == "strlen":
        return None or (lambda p: panic("strlen"))
    # allocator
    if "__rust_alloc" in name or "__rust_realloc" in name or sym in ("malloc", "calloc"):
        zeroed = "zeroed" in name or sym == "calloc"
        realloc = "realloc" in name

        def al(*a):
            rt.events.append(("alloc", where(), last))
            rt.allocs += 1
            if realloc:
                p, old, align, new = a
                new = rt.concretize(PW[0], num(new))
                o = rt.new_obj("heap", new, rt.concretize(PW[0], num(align)), "heap")
                memcpy(P(o, 0), p, min(new, rt.concretize(PW[0], num(old))))
                return P(o, 0)
            n = rt.concretize(PW[0], num(a[0]))
            align = rt.concretize(PW[0], num(a[1])) if "rust" in name else 16
            o = rt.new_obj("heap", n, align, "heap")
            if zeroed:
                memset(P(o, 0), 0, n)
            return P(o, 0)
        return al
    if ids[-2:] == ["Once", "call"]:
        def once(self, ignore, fd, fvt, *loc):
            # std's futex Once: 3 new, 2 poisoned, 1 running, 0 complete
            st = num(LD(self, 4, 4, 32)) & 3
            if st == 0:
                return None
            if st == 1 and rt.inside:
                raise PathEnd("infeasible", "this thread would wait")
            if st != 3:
                raise PathEnd("panic", "Once in state %d" % st)
            keep, rt.preempt = rt.preempt, None
            ST(self, 1, 4, 4, 32)
            rt.preempt = keep
            o = rt.new_obj("oncestate", 8, 4, "stack")
            put(o, 0, 4, 0)
            put(o, 4, 4, 0)
            fn = LDP(gep(fvt, 4 * PB[0]), 1)
            prog.pyf[fn.name](fd, P(o, 0))
            ST(self, num(get(o, 0, 4)) & 3, 4, 4, 32)
            return None
        return once
    if last in ("lock_contended", "write_contended", "read_contended"):
        def wait(*a):
            if rt.inside:
                raise PathEnd("infeasible", "this thread would wait")
            raise PathEnd("unsupported", "a lock is never released")
        return wait
    if last in ("wake", "wake_writer_or_readers") and ("sync" in ids or "futex" in ids):
        return lambda *a: None
    if last == "is_zero_slow_path":
        return lambda *a: 1
    if last == "register" and "destructors" in ids:
        return lambda *a: None
    if "__rust_dealloc" in name or "no_alloc_shim" in name or sym == "free":
        return lambda *a: None
    r = fmt_extern(prog, name, ids)
    if r is not None:
        return r
    if "noreturn" in attrs:
        if "alloc" in ids[:1] or "handle_alloc_error" in ids or "capacity_overflow" in ids:
            return lambda *a: panic("allocation failure: " + "::".join(ids))
        msg = "::".join(ids)

        def pf(*a):
            raise PathEnd("panic", msg + " <- " + where())
        return pf

    def unk(*a):
        raise PathEnd("unsupported", "external function " + "::".join(ids) + " from " + where())
    return unk


def vt_fmt(prog, val, vt, f):
    """call the Debug/Display::fmt entry of a vtable"""
    fn = LDP(gep(vt, 3 * PB[0]), 1)
    if type(fn) is not FuncRef:
        raise PathEnd("unsupported", "vtable")
    ii = idents(fn.name)
    rt.dbg_types.append("::".join(ii))
    return prog.pyf[fn.name](val, f)


def fmt_extern(prog, name, ids):
    """core::fmt machinery: output goes nowhere, but every nested fmt is executed"""
    if "fmt" not in ids and "builders" not in ids and "Formatter" not in ids:
        return None
    last = ids[-1]
    m = re.match(r"debug_(struct|tuple)_field(\d)_finish$", last)
    if m:
        k = int(m.group(2))
        struct = m.group(1) == "struct"

        def df(f, nm, nl, *a):
            st = 4 if struct else 2
            for i in range(k):
                v, vt = a[i * st + st - 2], a[i * st + st - 1]
                vt_fmt(prog, v, vt, f)
            return 0
        return df
    if re.match(r"debug_(struct|tuple)_fields_finish$", last):
        struct = "struct" in last

        def dfs(f, nm, nl, *a):
            vals, n = (a[2], a[3]) if struct else (a[0], a[1])
            for i in range(rt.concretize(PW[0], num(n))):
                v = LDP(gep(vals, 2 * i * PB[0]), 1)
                vt = LDP(gep(vals, (2 * i + 1) * PB[0]), 1)
                vt_fmt(prog, v, vt, f)
            return 0
        return dfs
    if last in ("debug_struct", "debug_list", "debug_tuple", "debug_set", "debug_map"):
        def ds(sret, f, *a):
            ST(sret, f, PB[0], 1, PB[0] * 8)
            return None
        return ds
    if "builders" in ids and last == "field":
        def fl(s, *a):
            f = LDP(s, 1)
            vt_fmt(prog, a[-2], a[-1], f)
            return s
        return fl
    if "builders" in ids and last in ("entry", "key", "value"):
        def en(s, v, vt):
            f = LDP(s, 1)
            vt_fmt(prog, v, vt, f)
            return s
        return en
    if "builders" in ids and last.startswith("finish"):
        return lambda *a: 0
    if last in ("write", "write_fmt", "write_str", "pad", "pad_integral", "write_char", "fmt"):
        return lambda *a: 0
    if last in ("debug_lower_hex", "debug_upper_hex", "alternate", "sign_plus"):
        return lambda *a: 0
    return None


NS = {k: v for k, v in globals().items() if not k.startswith("__")}
