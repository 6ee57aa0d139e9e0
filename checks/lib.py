"""shared helpers of the checks"""
import os
import random
import re
import sys
import time

import build
import solve
import terms as tm
from runner import *
from scen import *
from terms import *

ALLW = (64, 128, 256)


def chunks(l, n):
    """interleaved groups, so that long items spread over the tasks"""
    l = list(l)
    k = max(1, (len(l) + n - 1) // n)
    return [g for g in (l[i::k] for i in range(k)) if g]


_ICMP = re.compile(r"icmp (?:samesign )?(?:eq|ne|u[lg][te]|s[lg][te]) (?:i64|i32) [^,]+, (\d+)\b")
_SW = re.compile(r"^\s+i(?:64|32) (\d+), label")


_AND = re.compile(r"= (?:and|urem) i(?:64|32) [^,]+, (\d+)\b")
_ADD = re.compile(r"= add (?:nsw |nuw )*i(?:64|32) [^,]+, -(\d+)\b")
_SKIP = re.compile(r"3fmt|4Sink|4core3str|4core4char|4core3num|std_detect|5alloc|3std2io5error")


_TRUNC = re.compile(r"= trunc (?:nuw |nsw )*i(?:64|32) [^,]+ to i(8|16)\b")


def crit_consts(machines, lo=33, hi=70000):
    """comparison constants of the crate's code: thresholds a length may be compared with"""
    out = set()
    for m in machines:
        m.load()
        d = build.build(m.cfg)
        for n in ("highway", "hwharness"):
            skip = False
            for l in open("%s/%s.ll" % (d, n)):
                if l.startswith("define"):
                    skip = bool(_SKIP.search(l.split("(")[0]))
                if skip:
                    continue
                for r in (_ICMP, _SW):
                    x = r.search(l)
                    if x and lo <= int(x.group(1)) <= hi:
                        out.add(int(x.group(1)))
                x = _AND.search(l)
                if x:
                    v = int(x.group(1))
                    if lo <= v < hi and (" urem " in l or (v & (v + 1) == 0 and v >= 63)):
                        out.add(v)
                        out.add(v + 1)
                        if v & (v + 1) == 0 and v > 255:
                            out.add(v + 3)
                x = _TRUNC.search(l)
                if x and 1 << int(x.group(1)) <= hi and x.group(1) == "16":
                    out |= {65536, 65539}
                x = _ADD.search(l)
                if x and lo <= int(x.group(1)) <= hi:
                    out.add(int(x.group(1)))
    return out


def crit(machines, base, hi=1 << 20):
    s = set(base)
    for v in crit_consts(machines, hi=hi):
        s |= {v - 1, v, v + 1}
    return sorted(s)


def batch(c, fn, arglist):
    """run fn for every argument tuple with fresh term tables, until a violation"""
    for a in arglist:
        if over():
            c.bump("items_skipped_by_budget")
            continue
        c.fresh()
        fn(c, *a)
        if c.violations:
            return


def over():
    return DEADLINE[0] and time.time() > DEADLINE[0]


def run_all(c, fns):
    for fn, a in fns:
        c.fresh()
        fn(c, *a)
        if c.violations:
            return


def stream(s, kind, h, parts, how="append"):
    """append a list of byte lists"""
    hows = [how] if type(how) is str else how
    for i, p in enumerate(parts):
        s.append(kind, h, p, hows[i % len(hows)])


def cut(bs, sizes):
    out, i = [], 0
    for n in sizes:
        out.append(bs[i:i + n])
        i += n
    if i < len(bs):
        out.append(bs[i:])
    return out
