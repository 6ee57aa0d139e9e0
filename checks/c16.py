"""C16: the portable path contains no unsafe code in any configuration.

The symbolic input is the build configuration: one Boolean per cfg atom the sources mention,
constrained by rustc's target table.  Every occurrence of unsafe code has a presence condition,
and belongs to the portable path under a reachability condition; z3 decides whether a
configuration satisfies both.  A satisfying configuration is handed to rustc, whose
unsafe_code lint (forced, so that no attribute silences it) confirms or refutes it."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import z3

import build
import rsrc
from lib import *

ROOTS = {"PortableHash", "HashPacket", "Key", "HighwayHash", "HighwayBuildHasher", "impl_write", "impl_hasher"}
STOP = {"HighwayHasher", "SseHash", "AvxHash", "NeonHash", "WasmHash"}
HAVE = [build.X64, build.I686, build.A64, build.WASM, build.PPC64, build.PPC]
STD = (build.X64, build.I686, build.A64, build.WASM)


# ------------------------------------------------------------------ targets
def rustc(*a, check=True):
    return build.run([build.RUSTC] + list(a), check=check).stdout.decode()


def targets():
    """target -> set of cfg (name, value) rustc sets for it"""
    ts = rustc("--print", "target-list").split()

    def one(t):
        out = set()
        for l in rustc("--print", "cfg", "--target", t, check=False).splitlines():
            n, _, v = l.partition("=")
            out.add((n, v.strip('"') if v else None))
        return t, out
    with ThreadPoolExecutor(8) as ex:
        return {t: s for t, s in ex.map(one, ts) if s}


def feats_of(t):
    return set(re.findall(r"^ +([\w.-]+)", rustc("--print", "target-features", "--target", t, check=False), re.M))


class Space:
    """the configurations of the crate as an SMT formula"""

    def __init__(self, ats):
        self.atoms = sorted(ats, key=str)
        self.var = {a: z3.Bool("%s=%s" % a) for a in self.atoms}
        self.T = targets()
        declared = set(build.cargo_features())
        tgt = [a for a in self.atoms if a[0].startswith("target_") and a[0] != "target_feature" or a[0] in (
            "unix", "windows", "panic") and a[0] != "panic"]
        self.tf = [a for a in self.atoms if a[0] == "target_feature"]
        fs = {t: (feats_of(t) if self.tf and (t in HAVE or len(self.T) < 3) else None) for t in self.T}
        groups = {}
        for t, s in self.T.items():
            key = (tuple(a in s for a in tgt), tuple(a in s for a in self.tf),
                   tuple(True if fs[t] is None else a[1] in fs[t] for a in self.tf))
            groups.setdefault(key, []).append(t)
        self.tv = z3.Int("target")
        self.groups = []
        alt = []
        for key, ts in sorted(groups.items(), key=lambda x: x[1][0]):
            g = []
            for a, v in zip(tgt, key[0]):
                g.append(self.var[a] == v)
            for a, base, can in zip(self.tf, key[1], key[2]):
                if not base and not can:
                    g.append(z3.Not(self.var[a]))
            g.append(self.tv == len(self.groups))
            self.groups.append(ts)
            alt.append(z3.And(g))
        self.cons = [z3.Or(alt)]
        for a in self.atoms:
            if a[0] in ("test", "doc", "doctest", "clippy"):
                self.cons.append(z3.Not(self.var[a]))
            if a[0] == "feature" and a[1] not in declared:
                self.cons.append(z3.Not(self.var[a]))
        self.declared = declared

    def f(self, p):
        k = p[0]
        if k == "atom":
            return self.var[p[1:]]
        if k in ("true", "false"):
            return z3.BoolVal(k == "true")
        if k == "not":
            return z3.Not(self.f(p[1]))
        return (z3.And if k == "and" else z3.Or)([self.f(q) for q in p[1:]])

    def solve(self, c, phi, only=None):
        s = z3.Solver()
        s.add(self.cons)
        s.add(phi)
        if only:
            s.add(z3.Or([self.tv == i for i, ts in enumerate(self.groups) if set(ts) & set(only)]))
        t = time.time()
        r = s.check()
        c.bump("z3_time_ms", int(1000 * (time.time() - t)))
        c.bump("z3_queries")
        if r != z3.sat:
            return None
        m = s.model()
        ts = self.groups[m.eval(self.tv, True).as_long()]
        val = {a: bool(m.eval(v, True)) for a, v in self.var.items()}
        return ([t for t in HAVE if t in ts] or ts)[0], val

    def flags(self, target, val):
        f = ["--target", target]
        tf = []
        for a, v in val.items():
            if a[0] == "target_feature" and v != ((a in self.T[target])):
                tf.append(("+" if v else "-") + a[1])
            elif a[0] == "debug_assertions":
                f += ["-C", "debug-assertions=" + ("on" if v else "off")]
            elif a[0] == "overflow_checks":
                f += ["-C", "overflow-checks=" + ("on" if v else "off")]
            elif a[0] == "panic" and v:
                f += ["-C", "panic=" + a[1]]
            elif a[0] == "feature":
                if v:
                    f += ["--cfg", 'feature="%s"' % a[1]]
            elif a not in self.T[target] and v and not a[0].startswith("target_"):
                f += ["--cfg", a[0] if a[1] is None else '%s="%s"' % a]
        if tf:
            f += ["-C", "target-feature=" + ",".join(tf)]
        if target not in STD:
            f += ["-C", "panic=abort", "--sysroot", build.sysroot(target)]
        return f


# ------------------------------------------------------------------ rustc as the judge
def diags(flags):
    """[(file, line, kind, [call sites])] of unsafe code in a compiled configuration; None if it does not compile"""
    d = build.outdir(build.Cfg(), "c16-" + build.key_of(" ".join(flags)))
    out = []
    base = [build.RUSTC, "--edition", build.edition(), "--crate-name", "highway", "--crate-type", "rlib", "--emit", "metadata",
            "--out-dir", d, "--error-format=json", "-A", "unexpected_cfgs"] + flags + [os.path.join(build.REPO, "src", "lib.rs")]
    p = build.run(base[:1] + ["--cap-lints", "allow", "--force-warn", "unsafe_code"] + base[1:], check=False)
    ok = p.returncode == 0
    q = build.run(base[:1] + ["-F", "unsafe_code"] + base[1:], check=False)
    for r, codes in ((p, ("unsafe_code",)), (q, ("E0453",))):
        for l in r.stderr.decode(errors="replace").splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if (j.get("code") or {}).get("code") not in codes:
                continue
            for s in j["spans"]:
                if not s["is_primary"]:
                    continue
                chain = []
                e = s
                while e:
                    chain.append((rel(e["file_name"]), e["line_start"]))
                    e = (e.get("expansion") or {}).get("span")
                out.append((chain, j["message"]))
    err = ""
    if not ok:
        err = p.stderr.decode(errors="replace")
        m = re.findall(r'"rendered":"((?:[^"\\]|\\.)*)"', err)
        err = (m[0] if m else err)[:300]
    return ok, out, err


def rel(f):
    return os.path.relpath(os.path.join(os.getcwd(), f), build.REPO) if not f.startswith("<") else f


_DI = re.compile(r"^(!\d+) = (?:distinct )?!DI(\w+)\((.*)\)$")


def executed(cfg):
    """(file, line) of every function of the crate that the portable entry points reach in a debug build's IR"""
    d = build.outdir(cfg, "dbg")
    fl = cfg.flags() + ["-C", "debuginfo=2", "-Z", "mir-opt-level=0"]
    with build.locked(d):
        if not os.path.exists(os.path.join(d, "hwharness.ll")):
            base = [build.RUSTC, "--out-dir", d, "-A", "warnings", "--cap-lints", "warn"] + fl
            build.run(base + ["--edition", build.edition(), "--crate-name", "highway", "--crate-type", "rlib", "-C", "metadata=hw",
                              "--emit", "llvm-ir,metadata"] + build.feats(cfg.std) + [os.path.join(build.REPO, "src", "lib.rs")])
            build.run(base + ["--edition", "2021", "--crate-name", "hwharness", "--crate-type", "rlib", "-C", "metadata=hwh", "--emit",
                              "llvm-ir,metadata", "--extern", "highway=%s/libhighway.rmeta" % d] +
                      (["--cfg", 'feature="std"'] if cfg.std else []) + [build.HARNESS])
    name = re.compile(r'@(?:"[^"]+"|[\w.$]+)')
    funcs, where = {}, {}
    for f in ("highway", "hwharness"):
        md, cur = {}, None
        text = open(os.path.join(d, f + ".ll")).read().splitlines()
        for l in text:
            m = _DI.match(l)
            if m:
                md[m.group(1)] = (m.group(2), m.group(3))

        def field(s, k):
            m = re.search(r"\b%s: (!\d+|\d+|\"[^\"]*\")" % k, s)
            return m.group(1) if m else None

        def sub(n):
            """the subprogram of a scope"""
            for _ in range(100):
                if n not in md:
                    return None
                k, s = md[n]
                if k == "Subprogram":
                    fi = field(s, "file")
                    fn = field(md[fi][1], "filename") if fi in md else '""'
                    dr = field(md[fi][1], "directory") if fi in md else '""'
                    p = os.path.join(dr.strip('"'), fn.strip('"'))
                    return os.path.relpath(p, build.REPO), int(field(s, "line") or 0)
                n = field(s, "scope")
            return None
        memo = {}

        def loc(n):
            if n not in memo:
                out, x = set(), n
                while x in md and md[x][0] == "Location":
                    r = sub(field(md[x][1], "scope"))
                    if r:
                        out.add(r)
                    x = field(md[x][1], "inlinedAt")
                memo[n] = out
            return memo[n]
        for l in text:
            if l.startswith("define "):
                cur = name.search(l).group(0)
                funcs.setdefault(cur, set())
                where.setdefault(cur, set())
                m = re.search(r"!dbg (!\d+)", l)
                if m:
                    r = sub(m.group(1))
                    if r:
                        where[cur].add(r)
            elif l == "}":
                cur = None
            elif cur:
                m = re.search(r"!dbg (!\d+)", l)
                if m:
                    where[cur] |= loc(m.group(1))
                if "@" in l:
                    funcs[cur] |= set(name.findall(l))
    seen, todo = set(), [n for n in funcs if re.match(r"@p_", n)]
    build_roots = [n for n in funcs if re.match(r"@b_(new|default|build|debug)", n)]
    todo += build_roots
    out = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        w = where[n]
        if any(stopped(f) for f, _ in w):
            continue
        out |= {x for x in w if x[0].startswith("src" + os.sep)}
        todo += [r for r in funcs[n] if r in funcs]
    return out


DISPATCH = set()


def stopped(f):
    return f in DISPATCH


# ------------------------------------------------------------------ the encoding
class Path:
    """which code belongs to the portable path, as a condition per configuration"""

    def __init__(self, cr):
        self.cr = cr
        self.home = {}
        for it in cr.items:
            if it.name in ROOTS and it.kind in ("struct", "trait", "macro", "enum", "union", "type"):
                self.home.setdefault(it.file, set()).add(it.name)
        self.home = {f: n for f, n in self.home.items() if os.path.basename(f) != "lib.rs"}
        DISPATCH.clear()
        for it in cr.items:
            if it.name == "HighwayHasher" and it.kind in ("struct", "enum", "union") and it.file not in self.home:
                DISPATCH.add(it.file)

    def reach(self, sp):
        """formula per item outside the portable files: named, directly or not, by the portable files"""
        items = [it for it in self.cr.items if it.file not in self.home and it.name not in STOP and it.kind != "use" and
                 not (it.kind == "impl" and it.name.split()[1:] and set(it.name.split()) & STOP)]
        simd = {it.name for it in items}
        byname = {}
        for it in items:
            if it.kind != "impl":
                byname.setdefault(it.name, []).append(it)
        cur = {id(it): z3.BoolVal(False) for it in items}
        src = [it for it in self.cr.items if it.file in self.home]
        base = {}
        for it in src:
            for n in it.mentions & simd:
                for x in byname.get(n, ()):
                    base.setdefault(id(x), []).append(z3.And(sp.f(it.cond), sp.f(x.cond)))
        for k in cur:
            if k in base:
                cur[k] = z3.Or(base[k])
        edges = []
        for it in items:
            for n in it.mentions & simd:
                for x in byname.get(n, ()):
                    if x is not it:
                        edges.append((it, x))
            if it.kind == "impl":
                # an impl belongs to the types and traits of its head
                for n in set(it.name.split()[1:]) & simd:
                    for x in byname.get(n, ()):
                        edges.append((x, it))
        for _ in range(len(items)):
            hot = {k for k, v in cur.items() if not z3.is_false(v)}
            nxt = {}
            for a, b in edges:
                if id(a) in hot and id(b) not in hot:
                    nxt.setdefault(id(b), []).append(z3.And(cur[id(a)], sp.f(b.cond)))
            if not nxt:
                break
            for k, v in nxt.items():
                cur[k] = z3.Or(v)
        self.items = items
        return {(it.file, it.name): cur[id(it)] for it in items if not z3.is_false(cur[id(it)])}

    def member(self, o, sp, R):
        """condition under which the occurrence is portable-path code"""
        if o.macro:
            cs = [c for c in self.cr.calls if c[0] == o.macro]
            return z3.Or([z3.And(sp.f(c[3]), self.at(c[1], c[4], sp, R)) for c in cs] or [z3.BoolVal(False)])
        return self.at(o.file, (o.item, o.macro, o.fn, o.head), sp, R)

    def at(self, file, ctx, sp, R):
        if file in self.home:
            return z3.BoolVal(True)
        if ctx[3] and set(ctx[3]) & (ROOTS - {"HighwayHash", "Key"}) and file not in DISPATCH:
            return z3.BoolVal(True)          # an impl for one of the portable types, elsewhere
        if ctx[1]:
            cs = [c for c in self.cr.calls if c[0] == ctx[1] and c[1] in self.home]
            return z3.Or([sp.f(c[3]) for c in cs] or [z3.BoolVal(False)])
        return R.get((file, ctx[0]), z3.BoolVal(False))


def judge(P, chain, ex):
    """is a diagnostic of rustc about portable-path code?"""
    out = chain[-1]
    if out[0] in P.home:
        return "in %s:%d" % out
    for f, l in chain:
        inside = [x for x in P.cr.fns if x[0] == f and x[1] <= l <= x[2]]
        if inside and ex is not None:
            fn = max(inside, key=lambda x: x[1])
            if (f, fn[1]) in ex:
                return "in %s:%d, executed by the portable hasher" % (f, l)
        if not inside:
            for o in P.cr.occs:
                if o.file == f and o.line == l and o.head and set(o.head) & (ROOTS - {"HighwayHash", "Key"}) and f not in DISPATCH:
                    return "in %s:%d, an impl for a portable type" % (f, l)
    return None


_W = []


def world():
    if not _W:
        _W.append(world1())
    return _W[0]


def world1():
    cr = rsrc.Crate(build.REPO)
    P = Path(cr)
    ats = {("feature", "std"), ("debug_assertions", None), ("target_arch", "x86_64"), ("target_endian", "big"),
           ("target_pointer_width", "32")}
    for x in cr.occs + cr.items:
        rsrc.atoms(x.cond, ats)
    for x in cr.calls:
        rsrc.atoms(x[3], ats)
    return cr, P, Space(ats)


def nocode(o, cr):
    """an attribute without code"""
    return "unsafe_code" in o.what


def decide(c):
    cr, P, sp = world()
    missing = ROOTS - {n for s in P.home.values() for n in s}
    if missing & {"PortableHash", "HashPacket", "Key"}:
        c.inconclusive.append("no definition found of %s" % sorted(missing))
    R = P.reach(sp)
    c.bump("cfg_atoms", len(sp.atoms))
    c.bump("targets", len(sp.T))
    c.bump("target_classes", len(sp.groups))
    c.bump("unsafe_occurrences", len(cr.occs))
    for o in cr.occs:
        c.obl += 1
        mem = P.member(o, sp, R)
        phi = z3.And(sp.f(o.cond), mem)
        if o.macro:
            phi = mem
        tried = []
        got = None
        for k in range(4):
            r = None
            for only in (STD, HAVE, None):
                r = sp.solve(c, z3.And([phi] + tried), only)
                if r:
                    break
            if r is None:
                break
            got = r
            v = confirm(c, P, sp, o, r)
            if v:
                c.violation("unsafe code on the portable path", "%s, in configuration %s: %s" % (o, show(r), v[0]),
                            {}, "rustc %s\n%s" % (" ".join(v[1]), v[2]))
                return
            tried.append(z3.Or([sp.var[a] != b for a, b in r[1].items()]))
        if got is None:
            c.done += 1
            c.bump("presence_conditions_refuted")
        else:
            c.inconclusive.append("%s may be portable-path code (in %s); rustc and the call graph do not confirm it" % (o, show(got)))
    c.obl += 1
    if not P.home:
        c.inconclusive.append("the portable modules were not found")
    else:
        c.done += 1


def show(r):
    return "%s%s" % (r[0], "".join(" %s%s%s" % ("" if v else "not ", a[0], "=" + a[1] if a[1] else "") for a, v in sorted(
        r[1].items(), key=str) if not a[0].startswith("target_") or a[0] == "target_feature"))


def confirm(c, P, sp, o, r):
    target, val = r
    try:
        fl = sp.flags(target, val)
        ok, ds, err = diags(fl)
    except (build.BuildError, OSError, subprocess.SubprocessError) as e:
        c.inconclusive.append("configuration %s: %s" % (show(r), str(e)[:200]))
        return None
    c.bump("configurations_compiled_to_confirm")
    ex = None
    if o.file not in P.home:
        cfg = build.Cfg(target, "dev" if val.get(("debug_assertions", None)) else "o1", bool(val.get(("feature", "std"))) and target in STD,
                        ",".join("+" + a[1] for a, v in val.items() if a[0] == "target_feature" and v and a not in sp.T[target]))
        try:
            ex = executed(cfg)
        except build.BuildError:
            ex = None
    for chain, msg in ds:
        w = judge(P, chain, ex)
        if w and (o.file, o.line) in chain:
            return "%s %s" % (msg, w), fl, str(chain)
    return None


def concrete(c, cfg, extra):
    """one configuration compiled: rustc's own list of unsafe code against the encoding"""
    cr, P, sp = world()
    fl = cfg.flags() + build.feats(cfg.std) + extra
    ok, ds, err = diags(fl)
    c.obl += 1
    if not ok:
        c.inconclusive.append("%s does not compile: %s" % (cfg, err))
        return
    ex = None
    try:
        ex = executed(cfg)
        c.bump("portable_functions_traced", len(ex))
        c.funcs |= {"%s:%d" % x for x in ex}
    except build.BuildError as e:
        c.inconclusive.append("%s: %s" % (cfg, str(e)[:200]))
    known = {(o.file, o.line) for o in cr.occs}
    lost = []
    for chain, msg in ds:
        w = judge(P, chain, ex)
        if w:
            c.violation("unsafe code on the portable path", "%s: %s %s" % (cfg, msg, w), {}, "rustc --force-warn unsafe_code %s\n%s" % (
                " ".join(fl), chain))
            return
        if not set(chain) & known:
            lost.append(chain[0])
    if lost:
        c.inconclusive.append("%s: unsafe code the encoding does not know: %s" % (cfg, lost[:3]))
    c.bump("rustc_reports_matched_with_the_encoding", len(ds) - len(lost))
    c.done += 1


def main(k):
    q = k.tier == "quick"
    world()
    for t in (build.PPC64, build.PPC):
        build.sysroot(t)
    k.task("every configuration", decide)
    cfgs = []
    for t, st in ((build.X64, True), (build.I686, True), (build.A64, True), (build.WASM, True), (build.PPC64, False), (build.PPC, False)):
        for prof in ("dev", "o1"):
            for std in ((True, False) if st else (False,)):
                cfgs.append(build.Cfg(t, prof, std, "+simd128" if t == build.WASM and std else ""))
    for f in ("+avx2", "+sse4.1", "+avx512f"):
        cfgs += [build.Cfg(build.X64, p, s, f) for p in ("dev", "o1") for s in (True, False)]
    for cfg in cfgs:
        k.task("rustc %s" % cfg, concrete, cfg, [])
    k.bounds = {"configurations": "all: every subset of cargo features, every rustc target, every subset of the target features the "
                "sources mention, debug assertions, and any other cfg the sources mention; cfg(test) and cfg(doc) excluded",
                "portable path": "the files that define PortableHash, HashPacket, Key, HighwayHash, HighwayBuildHasher and the adapter "
                "macros, macro bodies they expand, impls for their types, and items elsewhere that they name (HighwayHasher, the "
                "documented opt-out, excepted)", "validation": "rustc's forced unsafe_code lint in %d configurations" % len(cfgs)}
    k.explanation = ("Each occurrence of unsafe code (or of an attribute that permits it) in the current sources has a presence "
                     "condition over cfg atoms and a condition for lying on the portable path; z3 decides for each that no "
                     "configuration satisfies both.  A satisfying configuration is compiled with the unsafe_code lint forced on "
                     "and, for code outside the portable files, the debug IR's call graph from the portable entry points must reach "
                     "it, before it counts.  The extraction is validated against rustc's own reports.")
    k.assumptions = ["rustc's unsafe_code lint reports all unsafe code of a compiled configuration"]
