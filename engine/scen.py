"""Scenarios: sequences of calls on the real code, executed symbolically over one or
more build configurations, recorded so that they can be replayed natively."""
import random
import os

import build
import symex
import terms as tm
from llir import Module
from sigs import table, BITS
from symex import (rt, P, PathEnd, Stop, LD, ST, LDP, put, get, FuncRef, Program)
from terms import *


class Machine:
    """the crate and the harness in one build configuration"""
    cpu_fact = None      # assumption about detected CPU features
    forced = None        # kind -> the feature a force_* constructor's safety contract requires

    def __init__(self, cfg, label=None):
        self.cfg = cfg
        self.label = label or cfg.name()
        self.prog = None
        self.native = None

    def load(self):
        if self.prog is not None:
            return self
        d = build.build(self.cfg)
        mods = [Module(open("%s/%s.ll" % (d, n)).read(), n) for n in ("highway", "hwharness")]
        self.prog = Program(mods, self.label)
        self.prog.extern_glob = self.extern_glob
        self.prog.extern_hook = self.extern_hook
        fs = self.prog.funcs
        self.kinds = [k for k in "pdsanw" if "@%s_append" % k in fs]
        self.sig = table(self.kinds, self.cfg.std)
        self.sizes = {}
        self.globs = None
        return self

    def extern_glob(self, name):
        if name.endswith("CACHE") and "std_detect" in name:
            o = symex.Obj("cpu_features", 24, 8, "cpu", False)
            for i in range(3):
                put(o, 8 * i, 8, cat([(1, 1), (63, var("cpu%d" % i, 63))]))
            if Machine.cpu_fact:
                rt.assume(Machine.cpu_fact())
            return o
        if name.endswith("GLOBAL_PANIC_COUNT"):
            # no thread is panicking
            o = symex.Obj("panic_count", 8, 8, "cpu", False)
            put(o, 0, 8, 0)
            return o
        return None

    def extern_hook(self, prog, name):
        if "detect_and_initialize" in name and "std_detect" in name:
            return lambda *a: cat([(1, 1), (63, var("cpu1", 63)), (1, 1), (63, var("cpu0", 63))])
        return None

    def size_align(self, kind):
        r = self.sizes.get(kind)
        if r is None:
            f = self.prog.pyf
            r = self.sizes[kind] = (f["@%s_size" % kind](), f["@%s_align" % kind]())
        return r

    def has(self, fn):
        return "@" + fn in self.prog.funcs

    def __repr__(self):
        return self.label


FORCED = {"%s_%s" % (k, f) for k in "sa" for f in ("new", "restore", "default", "bhdefault")}


class Ref:
    __slots__ = ("id", "obj", "off", "size", "mach")

    def __init__(self, id, obj, off, size, mach):
        self.id, self.obj, self.off, self.size, self.mach = id, obj, off, size, mach

    def at(self, off):
        return Ref(self.id, self.obj, self.off + off, self.size, self.mach)


class Sess:
    """one path of one scenario.  ops: the trace for native replay"""

    def __init__(self, tag, dry=False):
        self.dry = dry       # record the trace only (a path that ended early, for replay)
        self.tag = tag
        self.ops = []
        self.obs = {}
        self.nobj = 0
        self.nret = 0
        self.m = None
        self.nread = 0
        self.thr = 0
        rt.tlss = {}

    # ------------------------------------------------------------ machines
    def use(self, m):
        m.load()
        if self.m is m:
            return self
        self.m = m
        m.prog.activate()
        rt.mach_globs.setdefault(m.label, {})
        rt.globs = rt.mach_globs[m.label]
        self.ops.append(("use", m.label))
        return self

    # ------------------------------------------------------------ objects
    def raw(self, size, align=1, name="o", kind="arg", init=None, place=0):
        self.nobj += 1
        i = self.nobj
        o = rt.new_obj(name, size, align, kind)
        self.ops.append(("obj", i, size, align, name, place, o))
        r = Ref(i, o, 0, size, self.m)
        return r

    def hasher(self, kind):
        s, a = self.m.size_align(kind)
        return self.raw(s, a, "hasher_" + kind)

    def builder(self):
        s, a = self.m.size_align("b")
        return self.raw(s, a, "builder")

    def data(self, bs, align=1, name="data", src=None):
        """a byte object; bs: list of byte values (ints/terms); src: label of a read() whose
        native result initialises it on replay"""
        r = self.raw(len(bs), align, name)
        for i, b in enumerate(bs):
            put(r.obj, i, 1, b)
        self.ops.append(("init", r.id, list(bs), src))
        return r

    def key(self, ks):
        r = self.raw(32, 8, "key")
        for i, k in enumerate(ks):
            put(r.obj, 8 * i, 8, k)
        self.ops.append(("initw", r.id, list(ks), 8))
        return r

    # ------------------------------------------------------------ calls
    def call(self, fn, *args):
        if self.dry:
            rec = []
            for a, s in zip(args, self.m.sig[fn].split(":")[0]):
                rec.append(("ref", a.id, a.off) if isinstance(a, Ref) else ("val", a, s))
            self.nret += 1
            self.ops.append(("call", fn, rec, self.nret))
            return 0
        f = self.m.prog.pyf
        if Machine.forced and fn in FORCED and self.m.cfg.target == build.X64:
            c = Machine.forced(fn[0])
            if c not in rt.pc:
                rt.assume(c)
        if not self.m.has(fn):
            raise PathEnd("unsupported", "no entry point %s in %s" % (fn, self.m))
        rec = []
        av = []
        sig = self.m.sig[fn]
        for a, s in zip(args, sig.split(":")[0]):
            if isinstance(a, Ref):
                av.append(P(a.obj, a.off))
                rec.append(("ref", a.id, a.off))
            else:
                if type(a) is int and s in BITS:
                    a &= (1 << BITS[s]) - 1
                av.append(a)
                rec.append(("val", a, s))
        self.nret += 1
        self.ops.append(("call", fn, rec, self.nret))
        return f["@" + fn](*av)

    def ret(self, label, v, w):
        """observe the return value of the latest call"""
        self.ops.append(("ret", label, self.nret))
        self.obs[label] = [(w, v)]
        return v

    def read(self, label, r, n, off=0, word=8):
        """observe n bytes of an object, as words of the given byte size"""
        vs = []
        o = r.obj
        for k in range(0, n, word):
            if self.dry:
                vs.append((8 * word, 0))
                continue
            v = get(o, r.off + off + k, word)
            if type(v) is tuple or type(v) in (P, FuncRef):
                raise PathEnd("unsupported", "an output holds an address")
            vs.append((8 * word, v))
        self.ops.append(("read", label, r.id, r.off + off, n, word))
        self.obs[label] = vs
        return [v for (_, v) in vs]

    def check(self, label, w, v):
        """an engine-only observation (not replayed)"""
        self.obs[label] = [(w, v)]

    # ------------------------------------------------------------ helpers
    def new(self, kind, ks):
        h = self.hasher(kind)
        self.call(kind + "_new", self.key(ks), h)
        return h

    def default(self, kind):
        h = self.hasher(kind)
        self.call(kind + "_default", h)
        return h

    def restore(self, kind, c, src=None):
        h = self.hasher(kind)
        self.call(kind + "_restore", self.data(c, 1, "ckpt", src), h)
        return h

    def append(self, kind, h, bs, how="append"):
        n = len(bs)
        d = self.data(bs)
        self.appendref(kind, h, d, n, how)

    def appendref(self, kind, h, d, n, how="append"):
        if how == "append":
            self.call(kind + "_append", h, d, n)
        elif how == "hwrite":
            self.call(kind + "_hwrite", h, d, n)
        elif how == "iowrite":
            o = self.raw(8, 8, "n")
            self.call(kind + "_iowrite", h, d, n, o)
        elif how == "iowriteall":
            self.call(kind + "_iowriteall", h, d, n)
        else:
            raise ValueError(how)

    def fin(self, kind, h, w, label=None):
        o = self.raw(w // 8, 8, "digest")
        self.call("%s_fin%d" % (kind, w), h, o)
        return self.read(label or "fin%d" % w, o, w // 8)

    def fins(self, kind, h, pre="", ws=(64, 128, 256)):
        for w in ws:
            self.fin(kind, h, w, "%sfin%d" % (pre, w))

    def finish(self, kind, h, label="finish"):
        o = self.raw(8, 8, "digest")
        self.call(kind + "_finish", h, o)
        return self.read(label, o, 8)

    def oneshot(self, kind, h, bs, w, label=None):
        o = self.raw(w // 8, 8, "digest")
        d = self.data(bs)
        self.call("%s_hash%d" % (kind, w), h, d, len(bs), o)
        return self.read(label or "hash%d" % w, o, w // 8)

    def ckpt(self, kind, h, label="ckpt"):
        o = self.raw(164, 1, "ckpt")
        self.call(kind + "_checkpoint", h, o)
        return self.read(label, o, 164, word=1)

    def debug(self, kind, h, alt=0, flags=True):
        """Debug formatting: symbolically through a caller-made Formatter, natively into a buffer"""
        fn = kind + "_debug"
        buf = self.raw(4096, 1, "text")
        self.nret += 1
        self.ops.append(("call", kind + "_dbgtext", [("ref", h.id, h.off), ("val", alt, "b"), ("ref", buf.id, 0),
                                                     ("val", 4096, "z")], self.nret))
        if self.dry:
            return
        if not self.m.has(fn):
            raise PathEnd("unsupported", "no entry point %s in %s" % (fn, self.m))
        o = rt.new_obj("formatter", 64, 16, "arg")
        for i in range(64):
            put(o, i, 1, var("fmt%d" % i, 8) if flags else 0)
        r = self.m.prog.pyf["@" + fn](P(h.obj, h.off), P(o, 0))
        rt.notes.add("core::fmt executed as: every nested fmt runs, text goes nowhere")
        return r

    def move(self, r, to=None):
        """move a value (a bitwise copy, as Rust moves are)"""
        g = to or self.raw(r.size, r.obj.align, r.obj.name.split(".")[0])
        self.ops.append(("lit", "m %d %d %d" % (g.id, r.id, r.size)))
        if not self.dry:
            symex.memcpy(P(g.obj, 0), P(r.obj, 0), r.size)
        return g

    def thread(self, t):
        """the following calls run in thread t, each thread with its own thread-local storage"""
        self.ops.append(("lit", "t %d" % t))
        g = rt.globs
        for k in [k for k, o in g.items() if o.tls]:
            rt.tlss.setdefault(self.thr, {})[k] = g.pop(k)
        g.update(rt.tlss.get(t, {}))
        self.thr = t

    def preempted(self, j, other, step):
        """run step(); just before its access number j of shared mutable memory run other() to
        its end, as another thread.  Returns the number of accesses seen"""
        at = len(self.ops)
        st = [0, None]

        def run():
            keep, self.ops = self.ops, []
            t = self.thr
            pre, rt.preempt, rt.inside = rt.preempt, None, rt.inside + 1
            try:
                self.thread(9)
                other()
                self.thread(t)
            finally:
                st[1], self.ops = self.ops, keep
                rt.preempt, rt.inside = pre, rt.inside - 1

        def hit(o):
            st[0] += 1
            if st[0] == j + 1:
                run()
        rt.preempt = hit
        step()
        rt.preempt = None
        late = st[1] is None
        if late:
            run()
        sub = st[1]
        pre = [o for o in sub if o[0] in ("obj", "init", "initw")]
        body = [o for o in sub if o[0] not in ("obj", "init", "initw") and not (o[0] == "lit" and o[1][0] == "t")]
        self.ops[at:at] = pre + [("lit", "{")] + body + [("lit", "}"), ("lit", "Y %d" % j)]
        self.ops.append(("lit", "y"))
        return -1 if late else st[0]

    def clone(self, kind, h):
        g = self.hasher(kind)
        self.call(kind + "_clone", h, g)
        return g


class Path:
    __slots__ = ("pc", "obs", "end", "ops", "bases", "steps", "events", "notes", "dbg", "greads",
                 "gwrites", "seen", "value", "dec", "reads", "allocs")


def run_paths(scen, tag="", solver=None, maxpaths=400, deadline=None, setup=None):
    """all paths of a scenario (a function of a Sess)"""
    if solver is not None:
        rt.solver = solver
    out = []
    stack = [[]]
    import time
    while stack:
        dec = stack.pop()
        rt.tag = tag
        rt.reset(dec)
        rt.mach_globs = {}
        s = Sess(tag)
        p = Path()
        p.end = None
        p.value = None
        try:
            if setup:
                setup()
            p.value = scen(s)
        except PathEnd as e:
            p.end = (e.kind, str(e.info))
        except Stop:
            pass
        except RecursionError:
            p.end = ("unsupported", "recursion")
        except TimeoutError as e:
            p.end = ("limit", str(e))
        except (TypeError, AttributeError, KeyError, IndexError, NotImplementedError, AssertionError,
                ValueError) as e:
            if os.environ.get("HW_TRACE"):
                raise
            p.end = ("unsupported", "engine: %r" % (e,))
        stack.extend(rt.pending)
        if p.end and p.end[0] == "infeasible":
            continue
        if p.end and p.end[0] in ("panic", "oob", "misalign", "undef", "ub", "rowrite"):
            # the whole trace, for native replay
            objs = {op[1]: op[6] for op in s.ops if op[0] == "obj"}
            keep = (rt.bases, rt.pc, rt.events, rt.notes, rt.steps)
            d = Sess(tag, True)
            try:
                scen(d)
                s.ops = [op[:6] + (objs.get(op[1], op[6]),) if op[0] == "obj" else op for op in d.ops]
                s.obs = d.obs
            except Exception:
                pass
            rt.bases, rt.pc, rt.events, rt.notes, rt.steps = keep
        p.pc = list(rt.pc)
        p.obs = s.obs
        p.ops = s.ops
        p.bases = dict(rt.bases)
        p.steps = rt.steps
        p.events = rt.events
        p.notes = set(rt.notes)
        p.dbg = list(rt.dbg_types)
        p.greads = dict(rt.glob_reads)
        p.gwrites = dict(rt.glob_writes)
        p.seen = set(rt.seen)
        p.dec = list(rt.dec)
        p.allocs = rt.allocs
        out.append(p)
        if len(out) > maxpaths or (deadline and time.time() > deadline):
            q = Path()
            q.end = ("limit", "path limit")
            q.pc, q.obs, q.ops, q.bases, q.notes = [], {}, [], {}, set()
            q.events, q.dbg, q.greads, q.gwrites, q.seen, q.dec = [], [], {}, {}, set(), []
            q.steps = q.allocs = 0
            out.append(q)
            break
    return out


def kvars(p="k"):
    return [var("%s%d" % (p, i), 64) for i in range(4)]


def bvars(n, p="d", start=0):
    return [var("%s%d" % (p, i), 8) for i in range(start, start + n)]


LONG = 2100


def kd(n):
    """key and n data bytes: symbolic; beyond LONG bytes the key and all but the
    last 70 bytes are fixed pseudo-random values (the code runs on constants up to the tail)"""
    if n <= LONG:
        return kvars(), bvars(n)
    r = random.Random(n)
    D = [r.getrandbits(8) for _ in range(n - 70)] + bvars(70, "d", n - 70)
    return [r.getrandbits(64) for _ in range(4)], D


def ckpt_bytes(fill=None, p="c", tail=None):
    """164 symbolic checkpoint bytes; fill: concrete count, or None for a symbolic u32"""
    c = [var("%s%d" % (p, i), 8) for i in range(160)]
    if fill is None:
        c += [var("%s%d" % (p, i), 8) for i in range(160, 164)]
    else:
        c += list(fill.to_bytes(4, "little"))
    if tail is not None and fill is not None:
        for i in range(fill, 32):
            c[128 + i] = tail
    return c


def ckpt_over(p="c"):
    """checkpoint bytes whose count field is any value above 31; to be used with assume_over()"""
    v = var(p + "cnt", 32)
    tm.set_range(v, 32, (1 << 32) - 1)
    return [var("%s%d" % (p, i), 8) for i in range(160)] + [ext(v, 8 * i, 8) for i in range(4)]


def assume_over(c):
    r = 0
    for i in range(160, 164):
        for j in range(5 if i == 160 else 0, 8):
            r = or_(1, r, ext(c[i], j, 1))
    rt.assume(r)
