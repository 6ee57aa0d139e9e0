"""Obligations, parallel execution, verdicts, native confirmation and evidence."""
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import subprocess
import sys
import time
import traceback

import audit
import build
import replay as rp
import solve
import symex
import terms as tm
from scen import *
from solve import Verdict, Equiv, Solver, Stats
from terms import *

ROOT = build.ROOT
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BAD = ("panic", "oob", "misalign", "undef", "ub", "rowrite")
MACH = {}
DEADLINE = [None]


def machine(target=build.X64, profile="release", std=True, feat="", cpu=""):
    c = build.Cfg(target, profile, std, feat, cpu)
    m = MACH.get(c.name())
    if m is None:
        m = MACH[c.name()] = Machine(c)
    return m


def wasm(profile="release"):
    return machine(build.WASM, profile, feat="+simd128")


def neon(profile="release"):
    return machine(build.A64, profile)


def prepare(ms, native=()):
    """build (in parallel) and load the machines"""
    from concurrent.futures import ThreadPoolExecutor
    uniq = {m.cfg.name(): m for m in ms}
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda m: build.build(m.cfg), uniq.values()))
    for m in uniq.values():
        m.load()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(rp.native, native))


# ------------------------------------------------------------------ CPU features
_bits = {}      # feature -> (index, bit) in std_detect's cache
_feats = ("sse3 ssse3 sse4.1 sse4.2 sse4a avx avx2 aes pclmulqdq sha popcnt lzcnt bmi1 bmi2 fma f16c tbm adx movbe "
          "rdrand rdseed xsave xsaveopt xsaves xsavec cmpxchg16b fxsr avx512f avx512bw avx512vl").split()
MODELS = (None, "Nehalem", "qemu64", "Conroe", "Penryn", "Westmere", "SandyBridge", "IvyBridge", "Opteron_G3", "Opteron_G4",
          "Opteron_G5", "core2duo", "phenom", "Haswell", "EPYC", "max", "max,-avx2", "max,-avx2,-avx", "max,-ssse3,-avx",
          "max,-sse4.1,-avx", "max,-sse4.2,-avx", "max,-popcnt", "max,-bmi1,-bmi2", "max,-fma", "max,-aes",
          "qemu64,+ssse3", "qemu64,+sse4.2", "qemu64,+popcnt", "qemu64,+sse4.1,-ssse3")
_vals = {}


def cpu_bits():
    """bit positions of the CPU features in std_detect's cache, by executing a probe"""
    if _bits:
        return _bits
    d = os.path.join(build.OUT, "probe")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "probe.rs")
    with open(src, "w") as f:
        for n in _feats:
            f.write('#[no_mangle] pub extern "C" fn f_%s() -> bool { std::is_x86_feature_detected!("%s") }\n'
                    % (n.replace(".", ""), n))
    build.run([build.RUSTC, "--edition", "2021", "--crate-name", "probe", "--crate-type", "rlib", "-O",
               "--emit", "llvm-ir", "--out-dir", d, src])
    m = Machine(build.Cfg(), "probe")
    m.prog = Program([Module(open(d + "/probe.ll").read(), "probe")], "probe")
    m.prog.extern_glob = lambda n: Machine.extern_glob(m, n)
    m.prog.extern_hook = m.extern_hook
    Machine.cpu_fact = None
    rt.solver = Solver()
    for n in _feats:
        n = n.replace(".", "")
        rt.reset([])
        m.prog.activate()
        r = m.prog.pyf["@f_" + n]()
        vs = variables([r])
        for i in range(63):
            for k in (0, 1):
                e = {v.a[0]: 0 for v in vs}
                if ("cpu%d" % k) in e:
                    e["cpu%d" % k] = 1 << i
                    if evaluate([r], e)[0] & 1:
                        _bits[n] = (k, i)
    return _bits


def cpu_values():
    """detected-feature cache of each CPU a replay can run on -> its qemu model"""
    if not _vals:
        d = os.path.join(build.OUT, "probe")
        src = os.path.join(d, "probeb%d.rs" % os.getpid())
        with open(src, "w") as f:
            f.write("fn main() {\n%s}\n" % "".join(
                'if std::is_x86_feature_detected!("%s") { println!("%s"); }\n' % (n, n.replace(".", "")) for n in _feats))
        exe = os.path.join(d, "probeb%d" % os.getpid())
        build.run([build.RUSTC, "--edition", "2021", "-O", "-o", exe, src])
        for n in MODELS:
            try:
                p = subprocess.run(([] if n is None else ["qemu-x86_64", "-cpu", n]) + [exe], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=20)
            except (OSError, subprocess.TimeoutExpired):
                continue
            if p.returncode:
                continue
            v = [0, 0]
            for l in p.stdout.decode().split():
                if l in _bits:
                    v[_bits[l][0]] |= 1 << _bits[l][1]
            _vals.setdefault(tuple(v), n)
        os.unlink(exe)
    return _vals


def pin_cpu(env, conds):
    """let the assignment's CPU be one that a replay can run on and that satisfies conds"""
    if not _bits or not any(k in env for k in ("cpu0", "cpu1")):
        return env
    conds = [c for c in conds if type(c) is T and all(v.a[0] in ("cpu0", "cpu1") for v in variables([c]))]
    for (a, b), n in cpu_values().items():
        if all(evaluate(conds, {"cpu0": a, "cpu1": b})):
            env.update({"cpu0": a, "cpu1": b})
            return env
    return env


def cpu_bit(n):
    k, i = cpu_bits()[n]
    return ext(var("cpu%d" % k, 63), i, 1)


def cpu_fact():
    """assumption: a CPU that has AVX2 has SSE4.1 (true of every x86-64 CPU)"""
    b = cpu_bits()
    return or_(1, not_(1, cpu_bit("avx2")), cpu_bit("sse41"))


def use_cpu():
    """dispatching hashers see symbolic CPU features; explicit SIMD hashers need theirs"""
    cpu_bits()
    cpu_values()
    Machine.cpu_fact = cpu_fact
    Machine.forced = lambda k: cpu_bit("avx2" if k == "a" else "sse41")


def cpu_arg(env):
    """qemu CPU model for the feature bits an assignment chooses (None: the host)"""
    if not any(k.startswith("cpu") for k in env) or not _bits:
        return None
    v = (env.get("cpu0", 0), env.get("cpu1", 0))
    if v in _vals:
        return _vals[v]
    a = (env.get("cpu%d" % _bits["avx2"][0], 0) >> _bits["avx2"][1]) & 1
    s = (env.get("cpu%d" % _bits["sse41"][0], 0) >> _bits["sse41"][1]) & 1
    if a:
        return None
    return "Nehalem" if s else "qemu64"


# ------------------------------------------------------------------ contexts
class Ctx:
    """what one task works with; results are plain data"""

    def __init__(self, pid, tier, seed=""):
        self.pid = pid
        self.tier = tier
        self.obl = 0
        self.done = 0
        self.lemmas = 0
        self.lemmas_ok = 0
        self.paths = 0
        self.steps = 0
        self.violations = []
        self.inconclusive = []
        self.samples = []
        self.validated = 0
        self.validated_bad = []
        self.vac = 0
        self.funcs = set()
        self.extra = {}
        self.notes = set()
        self.stats = Stats()
        self.vrng = random.Random("%d %s" % (SEED, seed))
        self.fresh()

    def fresh(self):
        tm.reset()
        self.solver = Solver()
        self.solver.stats = self.stats
        self.rng = random.Random(SEED * 1000003 + 17)
        q = self.tier == "quick"
        self.equiv = Equiv(self.stats, SEED, local_ms=1500 if q else 5000, final_ms=8000 if q else 60000,
                           budget_s=15 if q else 120)

    # -------------------------------------------------------------- running
    def run(self, scen, tag="", maxpaths=400):
        ps = run_paths(scen, tag, self.solver, maxpaths, DEADLINE[0])
        self.paths += len(ps)
        for p in ps:
            self.steps += p.steps
            for i in p.seen:
                self.funcs.add(i)
            self.notes |= p.notes
        return ps

    def bump(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    # -------------------------------------------------------------- comparing
    def compare(self, name, A, B, labels=None, direct=True, hints=(), mapping=None, confirm=True,
                maxpaths=400):
        """every path of A agrees with every compatible path of B on all shared labels.
        A: scenario; B: scenario or {label: [(w, v)]} (expected values).
        direct: a difference breaks the property (otherwise a lemma).  Returns True when discharged."""
        pa = A if type(A) is list else self.run(A, "A.", maxpaths)
        if isinstance(B, dict):
            pb = [Path()]
            pb[0].pc, pb[0].obs, pb[0].end, pb[0].ops, pb[0].bases = [], B, None, None, {}
        else:
            pb = B if type(B) is list else self.run(B, "B.", maxpaths)
        ok = True
        reach = 0
        for x in pa:
            for y in pb:
                if x.pc and y.pc and not self.solver.feasible(x.pc, [c for c in y.pc if type(c) is T]):
                    continue
                reach += 1
                ok &= self.pair(name, x, y, labels, direct, hints)
                if self.violations:
                    return False
        if not reach:
            self.inconclusive.append("%s: no compatible paths" % name)
            ok = False
        return ok

    def pair(self, name, x, y, labels, direct, hints):
        ls = [l for l in x.obs if l in y.obs and (labels is None or l in labels) and l not in hints]
        want = set(l for p in (x, y) for l in p.obs if l not in hints and (labels is None or l in labels))
        n = sum(len(x.obs[l]) for l in ls)
        if direct:
            self.obl += max(n, 1)
        else:
            self.lemmas += max(n, 1)
        bad = [p for p in (x, y) if p.end]
        pc = x.pc + y.pc
        if bad:
            k = bad[0].end
            if k[0] in BAD and direct:
                env = self.solver.model(pc) if any(type(c) is T for c in pc) else {}
                if env is not None and self.confirm(name, x, y, want, env, "%s: %s" % k):
                    return False
            self.inconclusive.append("%s: path ends with %s (%s)" % (name, k[0], k[1][:160]))
            return False
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            self.inconclusive.append("%s: out of time" % name)
            return False
        if not ls:
            self.inconclusive.append("%s: nothing to compare" % name)
            return False
        pairs = []
        for l in ls:
            if len(x.obs[l]) != len(y.obs[l]):
                self.inconclusive.append("%s: shapes differ for %s" % (name, l))
                return False
            for (w, a), (_, b) in zip(x.obs[l], y.obs[l]):
                pairs.append((w, a, b))
        r, env, i = self.equiv.check(pairs, pc)
        if r == Verdict.EQ:
            if direct:
                self.done += n
            else:
                self.lemmas_ok += n
            self.validate(x, y)
            return True
        if r == Verdict.NE:
            env = self.complete(env, x, y, pairs)
            if not direct:
                self.inconclusive.append("lemma %s: differs" % name)
                self.extra.setdefault("lemma_env", []).append(name)
                return False
            if self.confirm(name, x, y, want, env, "differs"):
                return False
            self.inconclusive.append("%s: counterexample did not reproduce natively" % name)
            return False
        # unknown: use shallow observables to find a candidate
        for h in hints:
            if h in x.obs and h in y.obs:
                for (w, a), (_, b) in zip(x.obs[h], y.obs[h]):
                    r, env, _ = self.equiv.check([(w, a, b)], pc)
                    if r == Verdict.NE:
                        env = self.complete(env, x, y, pairs)
                        if direct and self.confirm(name, x, y, want, env, "differs"):
                            return False
                        break
        self.inconclusive.append("%s: undecided within the solver budget" % name)
        return False

    def complete(self, env, x, y, pairs):
        roots = [v for (_, a, b) in pairs for v in (a, b)]
        for p in (x, y):
            roots += [c for c in p.pc]
            if p.ops:
                for op in p.ops:
                    if op[0] in ("init", "initw"):
                        roots += [b for b in op[2]]
        for v in variables(roots):
            if v.a[0] not in env:
                env[v.a[0]] = self.rng.getrandbits(v.w)
        return env

    # -------------------------------------------------------------- native side
    def native_obs(self, p, env, fill=None):
        if p.ops is None:
            return {l: [e if e is not None else None for e in evaluate([v for _, v in vs], env)]
                    for l, vs in p.obs.items()}, None, "(specification)\n"
        pre = self.preempt if any(o[0] == "lit" and o[1][0] == "Y" for o in p.ops) else None
        return rp.replay(MACH, p.ops, env, p.bases, cpu_arg(env), fill, pre)

    preempt = None      # preemption point of a replay; the engine's and the native count may differ

    def confirm(self, name, x, y, labels, env, why, relation=None):
        """replay natively; a difference there is a violation"""
        env = dict(env)
        roots = []
        for p in (x, y):
            for op in p.ops or ():
                if op[0] in ("init", "initw"):
                    roots += [b for b in op[2]]
                elif op[0] == "call":
                    roots += [a[1] for a in op[2] if a[0] == "val"]
        for v in variables(roots):
            env.setdefault(v.a[0], self.rng.getrandbits(v.w))
        pin_cpu(env, x.pc + y.pc)
        try:
            res = []
            pre = any(o[0] == "lit" and o[1][0] == "Y" for p in (x, y) for o in p.ops or ())
            for fill, self.preempt in ([(0xA5, j) for j in range(48)] if pre else [(0xA5, None), (0x3C, None)]):
                oa, ea, ta = self.native_obs(x, env, fill)
                ob, eb, tb = self.native_obs(y, env, fill)
                res.append((oa, ea, ob, eb))
                diff = None
                if ea and not eb:
                    diff = "first run ends with %s (%s)" % ea
                elif eb and not ea:
                    diff = "second run ends with %s (%s)" % eb
                else:
                    for l in labels:
                        if oa.get(l) != ob.get(l) and not (ea and eb):
                            diff = "%s: %s vs %s" % (l, hx(oa.get(l)), hx(ob.get(l)))
                            break
                if diff:
                    self.violation(name, "%s; natively %s" % (why, diff), env, ta, tb)
                    return True
        except (rp.ReplayError, build.BuildError, OSError) as e:
            self.inconclusive.append("%s: replay failed: %s" % (name, str(e)[:200]))
        return False

    def violation(self, name, what, env, ta="", tb=""):
        self.violations.append({"name": name, "what": what, "env": {k: "%x" % v for k, v in env.items()},
                                "a": ta, "b": tb, "cpu": cpu_arg(env)})

    def validate(self, x, y, force=False):
        """translator validation: sampled paths are replayed natively and compared with
        what the symbolic execution predicts for the same inputs"""
        if not force and self.vrng.random() > self.valrate():
            return
        for p in (x, y):
            if p.ops is None or p.end:
                continue
            if all(MACH[o[1]].native for o in p.ops if o[0] == "use"):
                self.validate1(p)

    vr = 0.02

    def valrate(self):
        return self.vr

    def validate1(self, p, env=None):
        pc = [c for c in p.pc if type(c) is T]
        env = dict(env or {})
        if pc:
            m = self.solver.model(pc + self.solver.facts_for(pc, [f for b in p.bases.values() for f in b[1]]))
            if m is None:
                return
            env.update(m)
        roots = [v for vs in p.obs.values() for _, v in vs] + pc
        for op in p.ops:
            if op[0] in ("init", "initw"):
                roots += op[2]
        for v in variables([r for r in roots if type(r) is T]):
            env.setdefault(v.a[0], self.rng.getrandbits(v.w))
        if any("!" in k for k in env):
            return
        pin_cpu(env, pc)
        try:
            oa, ea, ta = self.native_obs(p, env)
        except (rp.ReplayError, build.BuildError, OSError) as e:
            self.inconclusive.append("validation could not run: %s" % str(e)[:200])
            return
        bad = None
        if ea:
            bad = "native run ends with %s" % (ea,)
        else:
            for l, vs in p.obs.items():
                if l not in oa:
                    continue
                e = evaluate([v for _, v in vs], env)
                if e != oa[l]:
                    bad = "%s: engine %s native %s" % (l, hx(e), hx(oa[l]))
                    break
        self.validated += 1
        if bad:
            self.validated_bad.append(bad + "\n" + ta[:20000])
        elif len(self.samples) < 1:
            self.samples.append({"trace": ta[:900], "native": {k: hx(v) for k, v in list(oa.items())[:3]}})

    def result(self):
        names = set()
        for m in MACH.values():
            if m.prog:
                pass
        return {"obl": self.obl, "done": self.done, "lemmas": self.lemmas, "lemmas_ok": self.lemmas_ok,
                "paths": self.paths, "steps": self.steps, "violations": self.violations,
                "inconclusive": self.inconclusive, "samples": self.samples, "validated": self.validated,
                "validated_bad": self.validated_bad, "extra": self.extra, "stats": self.stats.dict(),
                "notes": sorted(self.notes), "maxterms": tm.nterms()}


def hx(v):
    if v is None:
        return None
    return [x if type(x) is str else ("%x" % x if x is not None else None) for x in v][:48]


# ------------------------------------------------------------------ task pool
_TASKS = []
_AUDIT = set()      # tasks whose rewriting steps are logged and given to z3
_PID = [None, None]


class Overrun(BaseException):
    """a task used up its memory or its time"""


MEM_MB = 3500
GRACE = 45


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 >> 20


def _tick(*_):
    if rss() > MEM_MB:
        raise Overrun("memory")
    if DEADLINE[0] and time.time() > DEADLINE[0] + GRACE:
        raise Overrun("time")


def _worker(conn):
    """runs the tasks the parent names; leaves when its memory has grown"""
    signal.signal(signal.SIGALRM, _tick)
    signal.setitimer(signal.ITIMER_REAL, 1, 1)
    while True:
        i = conn.recv()
        if i is None:
            break
        try:
            r = _work(i)
        except Overrun as e:
            r = i, {"lost": _TASKS[i][0]}
        left = rss() > MEM_MB * 2 // 3
        conn.send((left, r))
        if left:
            break
    signal.setitimer(signal.ITIMER_REAL, 0)
    conn.close()
    os._exit(0)


def pool_run(n, procs):
    """the results of tasks 0..n-1 as they come; a lost worker costs its task only"""
    ctx = multiprocessing.get_context("fork")
    todo = list(range(n))[::-1]
    live = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        i = todo.pop()
        a.send(i)
        live[a] = [p, i]
    try:
        while todo and len(live) < procs:
            start()
        while live:
            for c in multiprocessing.connection.wait(list(live), timeout=5):
                p, i = live[c]
                left = True
                try:
                    left, r = c.recv()
                except (EOFError, OSError):
                    r = i, {"lost": _TASKS[i][0]}
                if left:
                    del live[c]
                    c.close()
                    p.join()
                    if todo:
                        start()
                elif todo:
                    live[c][1] = todo.pop()
                    c.send(live[c][1])
                else:
                    del live[c]
                    c.send(None)
                    p.join()
                    c.close()
                yield r
    finally:
        for p, _ in live.values():
            p.kill()
        for p, _ in live.values():
            p.join()


def _work(i):
    name, fn, args = _TASKS[i]
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        return i, {"skipped": name}
    c = Ctx(_PID[0], _PID[1], name)
    t = time.time()
    err = None
    aud = i in _AUDIT
    if aud:
        audit.start(2000 if c.tier == "quick" else 20000)
    try:
        fn(c, *args)
    except Overrun as e:
        c.inconclusive.append("%s: stopped for %s" % (name, e))
        aud = aud and audit.stop() and False
    except Exception:
        err = "%s: %s" % (name, traceback.format_exc()[-1500:])
    if aud:
        log, n = audit.stop()
        (ok, bad, un, left), which = audit.discharge(log, time.time() + (8 if c.tier == "quick" else 300), c.vrng)
        c.bump("rewriter_audit_steps", n)
        c.bump("rewriter_audit_shapes_proved_by_z3", ok)
        c.bump("rewriter_audit_shapes_refuted", bad)
        c.bump("rewriter_audit_shapes_undecided", un)
        c.bump("rewriter_audit_shapes_not_reached_in_time", left)
        if bad and not err:
            err = "rewriter audit: %s" % [k for r, k in which if r is False][:2]
    r = c.result()
    if err:
        r["error"] = err
    r["task"] = name
    r["t"] = time.time() - t
    fn_names = set()
    for m in MACH.values():
        if m.prog:
            fn_names |= m.prog.executed()
    r["funcs"] = fn_names
    return i, r


class Check:
    def __init__(self, pid, tier, level="other"):
        self.pid = pid
        self.tier = tier
        self.tasks = []
        self.t0 = time.time()
        self.budget = 420 if tier == "quick" else 6 * 3600
        self.bounds = {}
        self.assumptions = []
        self.explanation = ""
        self.level = level
        self.known = load_known(pid)

    def task(self, name, fn, *args):
        self.tasks.append((name, fn, args))

    def run(self, procs=8):
        global _TASKS
        self.tsetup = time.time() - self.t0
        _TASKS = self.tasks
        _AUDIT.clear()
        _AUDIT.update(random.Random(SEED).sample(range(len(self.tasks)), min(len(self.tasks), 4 if self.tier == "quick" else 24)))
        _PID[:] = [self.pid, self.tier]
        DEADLINE[0] = self.t0 + self.budget
        agg = {"obl": 0, "done": 0, "lemmas": 0, "lemmas_ok": 0, "paths": 0, "steps": 0, "validated": 0}
        st = Stats()
        self.violations, self.inconclusive, self.samples, self.errors, self.skipped = [], [], [], [], []
        self.vbad, self.notes, self.extra, self.funcs = [], set(), {}, set()
        self.times = []
        self.maxterms = 0
        pool = pool_run(len(self.tasks), procs)
        for i, r in pool:
            if "lost" in r:
                self.inconclusive.append("%s: its process ended" % r["lost"])
                continue
            if "skipped" in r:
                self.skipped.append(r["skipped"])
                continue
            for k in agg:
                agg[k] += r[k]
            st.add(r["stats"])
            for v in r["violations"]:
                v["task"] = r["task"]
            self.violations += r["violations"]
            self.inconclusive += ["%s: %s" % (r["task"], x) for x in r["inconclusive"]]
            if len(self.samples) < 4:
                self.samples += r["samples"]
            self.vbad += r["validated_bad"]
            self.notes |= set(r["notes"])
            self.funcs |= r["funcs"]
            self.maxterms = max(self.maxterms, r["maxterms"])
            for k, v in r["extra"].items():
                if type(v) is list:
                    self.extra.setdefault(k, []).extend(v)
                elif type(v) is int:
                    self.extra[k] = self.extra.get(k, 0) + v
                else:
                    self.extra[k] = v
            self.times.append((r["t"], r["task"]))
            if "error" in r:
                self.errors.append(r["error"])
            if self.violations and self.tier == "quick" and not os.environ.get("HW_ALL"):
                pool.close()
                break
        self.agg = agg
        self.stats = st
        if os.environ.get("HW_TIMES"):
            for t, n in sorted(self.times, reverse=True)[:12]:
                print("%7.1f s %s" % (t, n[:120]))
            print("total task time %.0f s, setup %.1f s" % (sum(t for t, _ in self.times), self.tsetup))

    # -------------------------------------------------------------- reporting
    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        wall = time.time() - self.t0
        new = []
        for v in self.violations:
            k = match_known(self.known, v)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
            else:
                new.append(v)
        a = self.agg
        cov = {
            "explanation": self.explanation,
            "obligations": a["obl"], "discharged": a["done"],
            "lemmas": a["lemmas"], "lemmas_discharged": a["lemmas_ok"],
            "paths": a["paths"], "ir_basic_blocks_executed": a["steps"],
            "tasks": len(self.tasks), "tasks_skipped_by_budget": len(self.skipped),
            "solver": self.stats.dict(),
            "traces_validated_against_impl": a["validated"],
            "validation_mismatches": len(self.vbad),
            "inconclusive": len(self.inconclusive), "inconclusive_samples": self.inconclusive[:10],
            "engine_errors": len(self.errors), "engine_error_samples": self.errors[:3],
            "bounds": self.bounds,
            "configurations": sorted(MACH),
            "functions_encoded": len(self.funcs),
            "functions_encoded_names": sorted(pretty(f) for f in self.funcs)[:400],
            "notes": sorted(self.notes),
            "samples": self.samples[:3],
            "checker_cmd": "python3-vt check.py %s %s" % (self.pid, self.tier),
            "trusted_base": ["engine/llir.py+symex.py (LLVM IR semantics; cross-checked against native runs)",
                             "engine/terms.py (bit-vector normal form; the steps logged in sampled tasks are proved by z3)", "z3",
                             "rustc/LLVM code generation below LLVM IR"],
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for s in self.inconclusive[:8]:
            print("INCONCLUSIVE %s" % s[:300])
        for s in self.errors[:3]:
            print("ENGINE-ERROR %s" % s[-600:])
        for s in self.vbad[:2]:
            print("VALIDATION-MISMATCH %s" % s[:500])
        print("%s %s: %d/%d obligations discharged, %d/%d lemmas, %d paths, %d traces validated, %d inconclusive, "
              "%d skipped, %.1f s" % (self.pid, self.tier, a["done"], a["obl"], a["lemmas_ok"], a["lemmas"],
                                      a["paths"], a["validated"], len(self.inconclusive), len(self.skipped), wall))
        if new:
            for n, v in enumerate(new[:3]):
                path = os.path.join(ROOT, "evidence", "replay-%s-%d.txt" % (self.pid, n))
                with open(path, "w") as f:
                    f.write("property %s\ntask %s\nobligation %s\n%s\ncpu %s\ninputs %s\n--- first run\n%s"
                            "--- second run\n%s" % (self.pid, v.get("task"), v["name"], v["what"], v.get("cpu"),
                                                    json.dumps(v["env"]), v["a"], v["b"]))
                print("  %s [%s] %s" % (v["name"], v.get("task"), v["what"][:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            return 1
        if a["obl"] and not a["done"]:
            print("nothing could be decided")
            return 2
        return 0


def pretty(f):
    import llir
    ids = llir.idents(f)
    return "::".join(ids) if ids else f


def load_known(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == pid]


def match_known(known, v):
    for k in known:
        if k.get("obligation") and k["obligation"] == v["name"]:
            return k
    return None
