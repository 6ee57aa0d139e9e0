"""Hash-consed bit-vector terms.

A value is either a Python int (a concrete bit pattern), the singleton UNDEF
(undef/poison/uninitialised), or a Term T of a known width.  Construction
functions normalise lightly; every normalisation rule used is a valid
bit-vector identity, and audit.py logs (op, args, result) of real runs
and has z3 discharge them.
"""
import sys

sys.setrecursionlimit(100000)


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class T:
    __slots__ = ("id", "op", "w", "a", "lz", "xs")

    def __init__(self, i, op, w, a, lz):
        self.id = i
        self.op = op
        self.w = w
        self.a = a
        self.lz = lz  # number of leading bits known to be zero
        self.xs = None  # the ext terms made from this one

    def __repr__(self):
        return "%s#%d:%d" % (self.op, self.id, self.w)


_tab = {}
_next = [1]
_vars = {}


_range = {}   # var id -> (lo, hi): facts assumed of every value of the variable


def set_range(v, lo, hi):
    _umax.clear()
    _umin.clear()
    _range[v.id] = (lo, hi)
    v.lz = v.w - hi.bit_length()


def reset():
    _range.clear()
    _addmemo.clear()
    _umax.clear()
    _umin.clear()
    _tab.clear()
    _vars.clear()
    _next[0] = 1


def nterms():
    return len(_tab)


def _mk(op, w, a, lz=0):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        i = _next[0]
        _next[0] = i + 1
        t = T(i, op, w, a, lz)
        _tab[k] = t
    return t


def _mkz(op, w, a, lz):
    """like _mk, for operations whose top lz bits are known to be zero: the raw
    term only ever appears under an ext of its low bits"""
    if lz <= 0:
        return _mk(op, w, a)
    if lz >= w:
        return 0
    t = _mk(op, w, a, lz)
    if op == "add":
        return cat([(lz, 0), (w - lz, ext(t, 0, w - lz))])
    return _mk("cat", w, ((lz, 0), (w - lz, _mk("ext", w - lz, (t, 0)))), lz)


def var(name, w):
    """A free variable."""
    t = _vars.get(name)
    if t is None:
        t = _vars[name] = _mk("var", w, (name,))
    elif t.w != w:
        raise ValueError("variable %s with two widths" % name)
    return t


_fresh = [0]
_fresh_tag = [""]


def fresh(w, tag="fresh"):
    _fresh[0] += 1
    return var("%s%s!%d" % (_fresh_tag[0], tag, _fresh[0]), w)


def lead0(w, x):
    if type(x) is int:
        return w - x.bit_length()
    if type(x) is T:
        return x.lz
    return 0


# ---------------------------------------------------------------- cat / ext
def _pieces(w, x, out):
    """append the pieces (high to low) of x as (w, int | T)"""
    if type(x) is T and x.op == "cat":
        out.extend(x.a)
    elif type(x) is T and x.op == "add" and (z := _tz(x)):
        out.append((w - z, ext(x, z, w - z)))
        out.append((z, x.a[0] & ((1 << z) - 1)))
    else:
        out.append((w, x))


def _split(x):
    """a bitwise operation on x distributes over its pieces"""
    return x.op == "cat" or (x.op == "add" and _tz(x) > 0)


def cat(parts):
    """parts: iterable of (width, value), most significant first."""
    flat = []
    for (w, x) in parts:
        if w == 0:
            continue
        if x is UNDEF:
            return UNDEF
        if type(x) is T and x.op == "cat":
            flat.extend(x.a)
        else:
            flat.append((w, x))
    out = []
    for (w, x) in flat:
        if out:
            pw, px = out[-1]
            if type(x) is int:
                if type(px) is int:
                    w, x = pw + w, (px << w) | x
                    out.pop()
                    if not out:
                        out.append((w, x))
                        continue
                    pw, px = out[-1]
                if type(px) is T and px.op == "ext" and 0 < px.a[1] <= w and px.a[0].op == "add" \
                        and not px.a[0].lz and pw + px.a[1] == px.a[0].w:
                    # the low bits of a sum whose addends are all multiples of 2^lo are constant
                    S, lo = px.a
                    if (x >> (w - lo)) == S.a[0] & ((1 << lo) - 1) and _tz(S) >= lo:
                        out.pop()
                        out.append((S.w, S))
                        if w == lo:
                            continue
                        w -= lo
                        x &= (1 << w) - 1
            elif type(px) is T:
                j = _join(px, x)
                if j is not None:
                    if j.op == "cat":
                        out.pop()
                        out.extend(j.a)
                    else:
                        out[-1] = (pw + w, j)
                    continue
        out.append((w, x))
    if len(out) == 1:
        return out[0][1]
    if not out:
        return 0
    tw = 0
    for p in out:
        tw += p[0]
    w0, x0 = out[0]
    lz = lead0(w0, x0)
    return _mk("cat", tw, tuple(out), lz)


def _tz(S):
    """every addend of the sum is a multiple of 2^_tz"""
    z = S.w
    for _, k in S.a[1]:
        y = (k & -k).bit_length() - 1
        if y < z:
            z = y
            if not z:
                break
    return z


def _join(p, x):
    """the single term equal to p followed by x, or None"""
    po = p.op
    if po == "ext" and x.op != "xor":
        pb, plo = p.a
        if x.op == "ext":
            b, lo = x.a
            if pb is b and plo == lo + x.w:
                return ext(b, lo, p.w + x.w)
        elif pb is x and plo == x.w:
            return ext(x, 0, p.w + x.w)
        return None
    if po == "xor" or x.op == "xor":
        pc, a = p.a if po == "xor" else (0, (p,))
        xc, b = x.a if x.op == "xor" else (0, (x,))
        po = "xor"
    elif po == x.op and (po == "and" or po == "or"):
        a, b = p.a, x.a
    else:
        return None
    if len(a) != len(b):
        return None
    rest = list(b)
    js = []
    for t in a:
        for i, u in enumerate(rest):
            j = _join(t, u)
            if j is not None:
                js.append(j)
                del rest[i]
                break
        else:
            return None
    w = p.w + x.w
    if po == "xor":
        r = (pc << x.w) | xc
        for j in js:
            r = xor_(w, r, j)
    else:
        f = and_ if po == "and" else or_
        r = js[0]
        for j in js[1:]:
            r = f(w, r, j)
    return r


def ext(x, lo, w):
    """bits lo .. lo+w-1 of x"""
    if type(x) is int:
        return (x >> lo) & ((1 << w) - 1)
    if x is UNDEF:
        return UNDEF
    xw = x.w
    if w == xw:
        return x
    op = x.op
    if op == "ext":
        return ext(x.a[0], x.a[1] + lo, w)
    if op == "cat":
        hi = lo + w
        pos = xw
        out = []
        for (pw, px) in x.a:
            pl = pos - pw
            # piece covers [pl,pos)
            if pl < hi and pos > lo:
                l = lo if lo > pl else pl
                h = hi if hi < pos else pos
                if l == pl and h == pos:
                    out.append((pw, px))
                else:
                    out.append((h - l, ext(px, l - pl, h - l)))
            pos = pl
        if len(out) == 1:
            return out[0][1]
        return cat(out)
    if op == "add":
        # the low bits of a sum whose addends are all multiples of 2^z are constant
        z = _tz(x)
        if z > lo:
            c = x.a[0] >> lo
            if lo + w <= z:
                return c & ((1 << w) - 1)
            return cat([(lo + w - z, ext(x, z, lo + w - z)), (z - lo, c & ((1 << (z - lo)) - 1))])
    if op == "ite" and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite_w(w, x.a[0], ext(x.a[1], lo, w), ext(x.a[2], lo, w))
    if op == "xor":
        r = (x.a[0] >> lo) & ((1 << w) - 1)
        for t in x.a[1]:
            r = xor_(w, r, ext(t, lo, w))
        return r
    if op == "and" or op == "or":
        f = and_ if op == "and" else or_
        r = ext(x.a[0], lo, w)
        for t in x.a[1:]:
            r = f(w, r, ext(t, lo, w))
        return r
    k = ("ext", w, (x, lo))
    t = _tab.get(k)
    if t is None:
        t = _mk("ext", w, (x, lo))
        if x.xs is None:
            x.xs = [t]
        else:
            x.xs.append(t)
    return t


def zext(x, w0, w):
    if type(x) is int or w == w0:
        return x
    if x is UNDEF:
        return UNDEF
    return cat([(w - w0, 0), (w0, x)])


def sext(x, w0, w):
    if type(x) is int:
        if x >> (w0 - 1):
            return x | (((1 << (w - w0)) - 1) << w0)
        return x
    if x is UNDEF:
        return UNDEF
    if w == w0:
        return x
    if x.lz:
        return zext(x, w0, w)
    s = ext(x, w0 - 1, 1)
    return cat([(w - w0, ite_w(w - w0, s, (1 << (w - w0)) - 1, 0)), (w0, x)])


def trunc(x, w):
    return ext(x, 0, w)


# ---------------------------------------------------------------- bitwise
def _cuts(w, x, y):
    """Refine the piece partitions of x and y (width w); yields (pw, xa, ya)."""
    px = []
    py = []
    _pieces(w, x, px)
    _pieces(w, y, py)
    i = j = 0
    xw, xv = px[0]
    yw, yv = py[0]
    out = []
    while True:
        if xw == yw:
            out.append((xw, xv, yv))
            i += 1
            j += 1
            if i == len(px):
                break
            xw, xv = px[i]
            yw, yv = py[j]
        elif xw < yw:
            out.append((xw, xv, ext(yv, yw - xw, xw)))
            yv = ext(yv, 0, yw - xw)
            yw -= xw
            i += 1
            xw, xv = px[i]
        else:
            out.append((yw, ext(xv, xw - yw, yw), yv))
            xv = ext(xv, 0, xw - yw)
            xw -= yw
            j += 1
            yw, yv = py[j]
    return out


def _const_runs(w, m):
    """runs of equal bits of m, most significant first: (width, bit)"""
    out = []
    i = w
    while i > 0:
        b = (m >> (i - 1)) & 1
        j = i - 1
        while j > 0 and ((m >> (j - 1)) & 1) == b:
            j -= 1
        out.append((i - j, b))
        i = j
    return out


def _hasconst(x):
    if type(x) is T and x.op == "cat":
        for (_, v) in x.a:
            if type(v) is int:
                return True
    return False


def and_(w, x, y):
    if type(x) is int:
        if type(y) is int:
            return x & y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if x is UNDEF:
            return UNDEF
        m = (1 << w) - 1
        if y == m:
            return x
        out = []
        pos = w
        for (rw, b) in _const_runs(w, y):
            pos -= rw
            out.append((rw, ext(x, pos, rw) if b else 0))
        return cat(out)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x is y:
        return x
    if _split(x) or _split(y):
        return cat([(pw, _and1(pw, a, b)) for (pw, a, b) in _cuts(w, x, y)])
    return _and1(w, x, y)


def _and1(w, x, y):
    if type(x) is int or type(y) is int:
        return and_(w, x, y)
    if x is y:
        return x
    s = set(x.a) if x.op == "and" else {x}
    s |= set(y.a) if y.op == "and" else {y}
    if w == 1:
        for t in s:
            if t.op == "xor" and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0] in s:
                return 0
    if len(s) == 1:
        return next(iter(s))
    return _mk("and", w, tuple(sorted(s, key=_tid)))


def _tid(t):
    return t.id


def or_(w, x, y):
    if type(x) is int:
        if type(y) is int:
            return x | y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        m = (1 << w) - 1
        if y == m:
            return m
        if x is UNDEF:
            return UNDEF
        out = []
        pos = w
        for (rw, b) in _const_runs(w, y):
            pos -= rw
            out.append((rw, ((1 << rw) - 1) if b else ext(x, pos, rw)))
        return cat(out)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x is y:
        return x
    if _split(x) or _split(y):
        return cat([(pw, _or1(pw, a, b)) for (pw, a, b) in _cuts(w, x, y)])
    return _or1(w, x, y)


def _or1(w, x, y):
    if type(x) is int or type(y) is int:
        return or_(w, x, y)
    if x is y:
        return x
    s = set(x.a) if x.op == "or" else {x}
    s |= set(y.a) if y.op == "or" else {y}
    if w == 1:
        for t in s:
            if t.op == "xor" and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0] in s:
                return 1
    if len(s) == 1:
        return next(iter(s))
    return _mk("or", w, tuple(sorted(s, key=_tid)))


def xor_(w, x, y):
    if type(x) is int:
        if type(y) is int:
            return x ^ y
        x, y = y, x
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(y) is int:
        if y == 0:
            return x
        if x.op == "xor":
            c = x.a[0] ^ y
            return _xorf(w, c, x.a[1])
        if _split(x):
            return cat([(pw, xor_(pw, a, b)) for (pw, a, b) in _cuts(w, x, y)])
        if w == 1 and x.op == "eqz":
            pass
        return _xorf(w, y, (x,))
    if x is y:
        return 0
    if _split(x) or _split(y):
        return cat([(pw, xor_(pw, a, b)) for (pw, a, b) in _cuts(w, x, y)])
    c = 0
    s = {}
    for t in (x, y):
        if t.op == "xor":
            c ^= t.a[0]
            for u in t.a[1]:
                if u in s:
                    del s[u]
                else:
                    s[u] = 1
        else:
            if t in s:
                del s[t]
            else:
                s[t] = 1
    return _xorf(w, c, tuple(sorted(s, key=_tid)))


def _xorf(w, c, ts):
    if not ts:
        return c
    if c == 0 and len(ts) == 1:
        return ts[0]
    return _mk("xor", w, (c, ts))


def not_(w, x):
    return xor_(w, x, (1 << w) - 1)


# ---------------------------------------------------------------- arithmetic
def _disjoint(w, x, y):
    for (_, a, b) in _cuts(w, x, y):
        if not ((type(a) is int and a == 0) or (type(b) is int and b == 0)):
            return False
    return True


def _rawof(x):
    """the raw operation behind cat(0.., ext(raw, 0, ..)), or None"""
    e = x.a[1][1]
    if type(e) is T and e.op == "ext" and e.a[1] == 0:
        r = e.a[0]
        if r.w == x.w and r.lz == x.a[0][0] and x.a[0][1] == 0:
            return r
    return None


def _lin(w, x, k, d):
    """accumulate k*x into d (term -> coefficient); returns the constant contribution.
    Concatenations are split into their pieces, each a zero-extended addend."""
    if type(x) is int:
        return k * x
    if x.op == "cat":
        if x.lz and len(x.a) == 2:
            r = _rawof(x)
            if r is not None:
                if r.op == "add":
                    x = r
                else:
                    d[x] = d.get(x, 0) + k
                    return 0
    if x.op == "add":
        for (t, c) in x.a[1]:
            d[t] = d.get(t, 0) + k * c
        return k * x.a[0]
    if x.op == "cat":
        a = x.a
        if a[0][1] == 0 and type(a[0][1]) is int and len(a) == 2:
            d[x] = d.get(x, 0) + k
            return 0
        c = 0
        pos = w
        for (pw, p) in a:
            pos -= pw
            if type(p) is int:
                c += (p << pos) * k
            else:
                if p.op == "ext" and p.a[1] == pos and p.a[0].w == w and pos + pw + p.a[0].lz == w \
                        and p.a[0].op == "add" and _tz(p.a[0]) >= pos:
                    # the sum less its constant low bits
                    S = p.a[0]
                    c += _lin(w, S, k, d) - k * (S.a[0] & ((1 << pos) - 1))
                    continue
                t = cat([(w - pw, 0), (pw, p)])
                if type(t) is T and t.op == "cat" and len(t.a) > 2:
                    c += _lin(w, t, k << pos, d)
                else:
                    d[t] = d.get(t, 0) + (k << pos)
        return c
    d[x] = d.get(x, 0) + k
    return 0


def _piece(w, t):
    """(piece, width) of a zero-extended addend"""
    if t.op == "cat" and len(t.a) == 2 and type(t.a[0][1]) is int and t.a[0][1] == 0:
        return t.a[1][1], t.a[1][0]
    return t, w


def _linmk(w, c, d):
    m = (1 << w) - 1
    c &= m
    # only the low w - tz bits of an addend with coefficient k = odd << tz matter
    todo = []
    for t, k in d.items():
        k &= m
        if not k:
            continue
        todo.append((t, k))
    if not todo:
        return c
    if len(todo) > 1 or todo[0][1] != 1:
        again = False
        d2 = {}
        for t, k in todo:
            p, pw = _piece(w, t)
            tz = (k & -k).bit_length() - 1
            if pw > w - tz:
                q = ext(p, 0, w - tz)
                c += _lin(w, cat([(tz, 0), (w - tz, q)]), k, d2)
                again = True
            else:
                d2[t] = d2.get(t, 0) + k
        if again:
            return _linmk(w, c, d2)
        # join contiguous pieces
        if len(todo) > 1:
            byk = {}
            for t, k in todo:
                byk.setdefault(k, []).append(t)
            for t, k in todo:
                p, pw = _piece(w, t)
                if pw == w:
                    continue
                for u in byk.get((k << pw) & m, ()):
                    if u is t:
                        continue
                    q, qw = _piece(w, u)
                    if qw + pw > w:
                        continue
                    j = _join(q, p)
                    if j is not None:
                        d2 = dict(todo)
                        d2[t] -= k
                        d2[u] -= (k << pw) & m
                        c += _lin(w, cat([(w - pw - qw, 0), (pw + qw, j)]), k, d2)
                        return _linmk(w, c, d2)
    ts = todo
    # all addends occupy disjoint bits: a concatenation
    occ = c
    fields = []
    for t, k in ts:
        if k & (k - 1):
            break
        p, pw = _piece(w, t)
        pos = k.bit_length() - 1
        f = ((1 << pw) - 1) << pos
        if occ & f or f > m:
            break
        occ |= f
        fields.append((pos, pw, p))
    else:
        fields.sort(reverse=True, key=lambda f: f[0])
        out = []
        top = w
        for pos, pw, p in fields:
            hi = pos + pw
            if hi < top:
                out.append((top - hi, (c >> hi) & ((1 << (top - hi)) - 1)))
            out.append((pw, p))
            top = pos
        if top:
            out.append((top, c & ((1 << top) - 1)))
        return cat(out)
    ts.sort(key=lambda p: p[0].id)
    # bound on the value, to keep leading zeros
    tot = c
    for t, k in ts:
        tot += k * umax_of(w, t)
    lz = 0
    if tot <= m:
        lz = w - tot.bit_length()
    return _mkz("add", w, (c, tuple(ts)), lz)


def add(w, x, y):
    if type(x) is int:
        if type(y) is int:
            return (x + y) & ((1 << w) - 1)
        if x == 0:
            return y
    elif type(y) is int and y == 0:
        return x
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x is y:
        return shl(w, x, 1)
    if type(x) is T and type(y) is T:
        key = (x.id, y.id) if x.id < y.id else (y.id, x.id)
        r = _addmemo.get(key)
        if r is None:
            r = _addmemo[key] = _add(w, x, y)
        return r
    return _add(w, x, y)


_addmemo = {}


def _add(w, x, y):
    bx = _bigsum(w, x)
    by = _bigsum(w, y)
    if bx is None or (by is not None and len(by.a[1]) > len(bx.a[1])):
        bx, x, y = by, y, x
    if bx is not None:
        r = _addto(w, bx, y)
        if r is not None:
            return r
    d = {}
    c = _lin(w, x, 1, d)
    c += _lin(w, y, 1, d)
    return _linmk(w, c, d)


def _bigsum(w, x):
    """x as an 'add' term that may wrap and has several addends, or None"""
    if type(x) is T and x.op == "add" and len(x.a[1]) > 6:
        return x
    return None


def _addto(w, big, y):
    """big + y where big is a normalised wrapping sum: only y's addends need normalising.
    None if the general path is needed."""
    m = (1 << w) - 1
    d2 = {}
    c = (big.a[0] + _lin(w, y, 1, d2)) & m
    d = dict(big.a[1])
    for t, k in d2.items():
        k &= m
        if not k:
            continue
        if t in d:
            return None
        p, pw = _piece(w, t)
        if pw > w - ((k & -k).bit_length() - 1):
            return None
        if pw < w:
            if p.op == "ext":
                b, lo = p.a
                for e in b.xs:
                    elo = e.a[1]
                    if elo == lo + pw:
                        u = _tab.get(("cat", w, ((w - e.w, 0), (e.w, e)))) if e.w < w else e
                        if u is not None and d.get(u) == (k << pw) & m:
                            return None
                    elif elo + e.w == lo:
                        u = _tab.get(("cat", w, ((w - e.w, 0), (e.w, e)))) if e.w < w else e
                        if u is not None and u in d and (d[u] << e.w) & m == k:
                            return None
            elif p.op in _JOINS:
                # only a concatenation of a zero and a like piece can join with p
                kp = (k << pw) & m
                km = (k & -k) - 1
                for u, ku in d.items():
                    if ku == kp:
                        if u.op == "cat":
                            q, qw = _piece(w, u)
                            if qw + pw <= w and _join(q, p) is not None:
                                return None
                    elif ku & km and u.op == "cat":
                        q, qw = _piece(w, u)
                        if (ku << qw) & m == k and qw + pw <= w and _join(p, q) is not None:
                            return None
        d[t] = k
    ts = sorted(d.items(), key=_tid0)
    return _mk("add", w, (c, tuple(ts)), 0)


_JOINS = ("xor", "and", "or")


def _tid0(p):
    return p[0].id


def sub(w, x, y):
    if type(x) is int and type(y) is int:
        return (x - y) & ((1 << w) - 1)
    if type(y) is int and y == 0:
        return x
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x is y:
        return 0
    d = {}
    c = _lin(w, x, 1, d)
    c += _lin(w, y, -1, d)
    return _linmk(w, c, d)


def mul(w, x, y):
    if type(x) is int:
        if type(y) is int:
            return (x * y) & ((1 << w) - 1)
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if x is UNDEF:
            return UNDEF
        if y == 1:
            return x
        if y & (y - 1) == 0:
            return shl(w, x, y.bit_length() - 1)
        d = {}
        c = _lin(w, x, y, d)
        return _linmk(w, c, d)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if y.id < x.id:
        x, y = y, x
    return _mkz("mul", w, (x, y), x.lz + y.lz - w)


def shl(w, x, n):
    if type(n) is int:
        if n >= w:
            return UNDEF
        if type(x) is int:
            return (x << n) & ((1 << w) - 1)
        if n == 0:
            return x
        if x is UNDEF:
            return UNDEF
        return cat([(w - n, ext(x, 0, w - n)), (n, 0)])
    if x is UNDEF or n is UNDEF:
        return UNDEF
    if type(x) is int and x == 0:
        return 0
    return _mk("shl", w, (x, n))


def lshr(w, x, n):
    if type(n) is int:
        if n >= w:
            return UNDEF
        if type(x) is int:
            return x >> n
        if n == 0:
            return x
        if x is UNDEF:
            return UNDEF
        return cat([(n, 0), (w - n, ext(x, n, w - n))])
    if x is UNDEF or n is UNDEF:
        return UNDEF
    if type(x) is int and x == 0:
        return 0
    return _mkz("lshr", w, (x, n), lead0(w, x))


def ashr(w, x, n):
    if type(n) is int:
        if n >= w:
            return UNDEF
        if type(x) is int:
            s = x - (1 << w) if x >> (w - 1) else x
            return (s >> n) & ((1 << w) - 1)
        if n == 0:
            return x
        if x is UNDEF:
            return UNDEF
        return sext(ext(x, n, w - n), w - n, w)
    if x is UNDEF or n is UNDEF:
        return UNDEF
    return _mk("ashr", w, (x, n))


def udiv(w, x, y):
    if type(y) is int:
        if y == 0:
            return UNDEF
        if type(x) is int:
            return x // y
        if y & (y - 1) == 0:
            return lshr(w, x, y.bit_length() - 1)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return _mkz("udiv", w, (x, y), lead0(w, x))


def urem(w, x, y):
    if type(y) is int:
        if y == 0:
            return UNDEF
        if type(x) is int:
            return x % y
        if y & (y - 1) == 0:
            return and_(w, x, y - 1)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return _mkz("urem", w, (x, y), max(lead0(w, x), lead0(w, y)))


def _sg(w, x):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(w, x, y):
    if type(x) is int and type(y) is int:
        if y == 0:
            return UNDEF
        a, b = _sg(w, x), _sg(w, y)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q & ((1 << w) - 1)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return _mk("sdiv", w, (x, y))


def srem(w, x, y):
    if type(x) is int and type(y) is int:
        if y == 0:
            return UNDEF
        a, b = _sg(w, x), _sg(w, y)
        r = abs(a) % abs(b)
        if a < 0:
            r = -r
        return r & ((1 << w) - 1)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return _mk("srem", w, (x, y))


# ---------------------------------------------------------------- conditions
def _ite(w, c, x, y):
    if w == 1:
        if type(x) is int and type(y) is int:
            return c if x else not_(1, c)
        if type(x) is int:
            return or_(1, c, y) if x else and_(1, not_(1, c), y)
        if type(y) is int:
            return or_(1, not_(1, c), x) if y else and_(1, c, x)
    return _mkz("ite", w, (c, x, y), min(lead0(w, x), lead0(w, y)))


def ite_w(w, c, x, y):
    if type(c) is int:
        return x if c else y
    if x is y:
        return x
    if c is UNDEF:
        return UNDEF
    if type(x) is int and type(y) is int and x == y:
        return x
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if c.op == "xor" and c.a[0] == 1 and len(c.a[1]) == 1:
        c = c.a[1][0]
        x, y = y, x
    if type(x) is int and type(y) is int and w > 1:
        # bitwise: cat of per-run choices
        d = x ^ y
        out = []
        pos = w
        for (rw, b) in _const_runs(w, d):
            pos -= rw
            xx = (x >> pos) & ((1 << rw) - 1)
            yy = (y >> pos) & ((1 << rw) - 1)
            if b:
                # all bits differ: xx = ~yy, a sign-extended choice
                m = (1 << rw) - 1
                nc = None
                for k in range(rw - 1, -1, -1):
                    if (xx >> k) & 1:
                        out.append((1, c))
                    else:
                        if nc is None:
                            nc = not_(1, c)
                        out.append((1, nc))
            else:
                out.append((rw, xx))
        return cat(out)
    return _ite(w, c, x, y)


_umax = {}
_umin = {}


def umax_of(w, x):
    if type(x) is int:
        return x
    r = _umax.get(x.id)
    if r is None:
        r = _umax[x.id] = _umax_of(w, x)
    return r


def umin_of(w, x):
    if type(x) is int:
        return x
    r = _umin.get(x.id)
    if r is None:
        r = _umin[x.id] = _umin_of(w, x)
    return r


def _umax_of(w, x):
    if x.op == "var" and x.id in _range:
        return _range[x.id][1]
    if x.op == "cat":
        r = 0
        for (pw, p) in x.a:
            r = (r << pw) | (p if type(p) is int else umax_of(pw, p))
        return r
    if x.op == "ext":
        r = x.a[0]
        if x.a[1] == 0 and r.lz:
            return min((1 << w) - 1, umax_of(r.w, r))
        if r.lz + w + x.a[1] >= r.w:
            return min((1 << w) - 1, umax_of(r.w, r) >> x.a[1])
    if x.op == "ite":
        return max(umax_of(w, x.a[1]), umax_of(w, x.a[2]))
    if x.op == "add":
        tot = x.a[0]
        for t, k in x.a[1]:
            tot += k * umax_of(w, t)
        if tot < (1 << w):
            return tot
    return (1 << (w - x.lz)) - 1


def _umin_of(w, x):
    if x.op == "var" and x.id in _range:
        return _range[x.id][0]
    if x.op == "cat":
        r = 0
        for (pw, p) in x.a:
            r = (r << pw) | (p if type(p) is int else umin_of(pw, p))
        return r
    if x.op == "ext" and x.a[0].lz + w + x.a[1] >= x.a[0].w:
        return umin_of(x.a[0].w, x.a[0]) >> x.a[1]
    if x.op == "ite":
        return min(umin_of(w, x.a[1]), umin_of(w, x.a[2]))
    if x.op == "add":
        tot = x.a[0]
        lo = x.a[0]
        for t, k in x.a[1]:
            tot += k * umax_of(w, t)
            lo += k * umin_of(w, t)
        return lo if tot < (1 << w) else 0
    return 0


def eq(w, x, y):
    if x is y:
        return 1
    if type(x) is int:
        if type(y) is int:
            return 1 if x == y else 0
        x, y = y, x
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(y) is int:
        if w == 1:
            return x if y else not_(1, x)
        if y > umax_of(w, x) or y < umin_of(w, x):
            return 0
        if x.op == "cat":
            rest = []
            pos = w
            for (pw, p) in x.a:
                pos -= pw
                yy = (y >> pos) & ((1 << pw) - 1)
                if type(p) is int:
                    if p != yy:
                        return 0
                else:
                    rest.append((pw, p, yy))
            if len(rest) < len(x.a) or len(rest) > 1:
                r = 1
                for (pw, p, yy) in rest:
                    r = and_(1, r, eq(pw, p, yy))
                return r
        if x.op == "ite":
            c, a, b = x.a
            if type(a) is int or type(b) is int:
                ea = eq(w, a, y)
                eb = eq(w, b, y)
                return ite_w(1, c, ea, eb)
        if x.op == "add" and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            if x.a[0]:
                return eq(w, x.a[1][0][0], (y - x.a[0]) & ((1 << w) - 1))
        if x.op == "xor" and x.a[0]:
            return eq(w, _xorf(w, 0, x.a[1]), y ^ x.a[0])
        return _mk("eq", 1, (x, y))
    if w == 1:
        return not_(1, xor_(1, x, y))
    if umax_of(w, x) < umin_of(w, y) or umax_of(w, y) < umin_of(w, x):
        return 0
    if x.op == "add" or y.op == "add":
        d = sub(w, x, y)
        if type(d) is int:
            return 1 if d == 0 else 0
    if y.id < x.id:
        x, y = y, x
    return _mk("eq", 1, (x, y))


def _nowrap(w, x):
    """x as (constant, {term: coefficient}) without wrap-around, or None"""
    d = {}
    c = _lin(w, x, 1, d)
    tot = c
    for t, k in d.items():
        tot += k * umax_of(w, t)
    return (c, d) if tot < (1 << w) else None


def ult(w, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is int and type(y) is int:
        return 1 if x < y else 0
    if x is y:
        return 0
    if umax_of(w, x) < umin_of(w, y):
        return 1
    if umin_of(w, x) >= umax_of(w, y):
        return 0
    if type(x) is T and type(y) is T and (x.lz or y.lz):
        # cancel the addends common to two sums that cannot wrap
        p = _nowrap(w, x)
        q = p and _nowrap(w, y)
        if q:
            common = False
            for t, k in list(p[1].items()):
                j = min(k, q[1].get(t, 0))
                if j:
                    common = True
                    for r in (p[1], q[1]):
                        r[t] -= j
            if common:
                j = min(p[0], q[0])
                return ult(w, _linmk(w, p[0] - j, {t: k for t, k in p[1].items() if k}),
                           _linmk(w, q[0] - j, {t: k for t, k in q[1].items() if k}))
    if type(y) is int and y == 1:
        return eq(w, x, 0)
    if type(x) is int and x == 0:
        return not_(1, eq(w, y, 0))
    return _mk("ult", 1, (x, y, w))


def slt(w, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is int and type(y) is int:
        return 1 if _sg(w, x) < _sg(w, y) else 0
    if x is y:
        return 0
    # both non-negative
    if lead0(w, x) and lead0(w, y):
        return ult(w, x, y)
    if type(y) is int and y == 0:
        return ext(x, w - 1, 1)
    return _mk("slt", 1, (x, y, w))


def icmp(pred, w, x, y):
    if pred == "eq":
        return eq(w, x, y)
    if pred == "ne":
        return not_(1, eq(w, x, y))
    if pred == "ult":
        return ult(w, x, y)
    if pred == "ugt":
        return ult(w, y, x)
    if pred == "ule":
        return not_(1, ult(w, y, x))
    if pred == "uge":
        return not_(1, ult(w, x, y))
    if pred == "slt":
        return slt(w, x, y)
    if pred == "sgt":
        return slt(w, y, x)
    if pred == "sle":
        return not_(1, slt(w, y, x))
    if pred == "sge":
        return not_(1, slt(w, x, y))
    raise NotImplementedError(pred)


def ctpop(w, x):
    if type(x) is int:
        return bin(x).count("1")
    if x is UNDEF:
        return UNDEF
    return _mkz("ctpop", w, (x,), max(0, w - w.bit_length()))


def fshl(w, a, b, n):
    n_ = urem(w, n, w)
    if type(n_) is int:
        if n_ == 0:
            return a
        return cat([(w - n_, ext(a, 0, w - n_)), (n_, ext(b, w - n_, n_))])
    if a is UNDEF or b is UNDEF or n_ is UNDEF:
        return UNDEF
    return _mk("fshl", w, (a, b, n_))


def fshr(w, a, b, n):
    n_ = urem(w, n, w)
    if type(n_) is int:
        if n_ == 0:
            return b
        return cat([(n_, ext(a, 0, n_)), (w - n_, ext(b, n_, w - n_))])
    if a is UNDEF or b is UNDEF or n_ is UNDEF:
        return UNDEF
    return _mk("fshr", w, (a, b, n_))


# ---------------------------------------------------------------- traversal
def children(t):
    """child values (T only)"""
    op = t.op
    if op == "var":
        return ()
    if op == "cat":
        return [x for (_, x) in t.a if type(x) is T]
    if op == "ext":
        return (t.a[0],)
    if op == "xor":
        return t.a[1]
    if op == "add":
        return [x for (x, _) in t.a[1]]
    return [x for x in t.a if type(x) is T]


def cone(roots):
    """all terms below the roots, in topological (id) order"""
    seen = {}
    st = [r for r in roots if type(r) is T]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        for c in children(t):
            if c.id not in seen:
                st.append(c)
    return [seen[k] for k in sorted(seen)]


def variables(roots):
    return [t for t in cone(roots) if t.op == "var"]


def eval_order(order, env, default=0):
    """evaluate a topologically ordered list; env: name -> int"""
    v = {}

    def g(x):
        return x if type(x) is int else v[x.id]

    for t in order:
        op = t.op
        w = t.w
        a = t.a
        if op == "var":
            r = env.get(a[0])
            if r is None:
                r = default(t) if callable(default) else default
            r &= (1 << w) - 1
        elif op == "cat":
            r = 0
            for (pw, x) in a:
                r = (r << pw) | (x if type(x) is int else v[x.id])
        elif op == "ext":
            r = (v[a[0].id] >> a[1]) & ((1 << w) - 1)
        elif op == "add":
            r = a[0]
            for (x, k) in a[1]:
                r += k * v[x.id]
            r &= (1 << w) - 1
        elif op == "xor":
            r = a[0]
            for x in a[1]:
                r ^= v[x.id]
        elif op == "and":
            r = v[a[0].id]
            for x in a[1:]:
                r &= v[x.id]
        elif op == "or":
            r = v[a[0].id]
            for x in a[1:]:
                r |= v[x.id]
        elif op == "mul":
            r = (g(a[0]) * g(a[1])) & ((1 << w) - 1)
        elif op == "ite":
            r = g(a[1]) if g(a[0]) else g(a[2])
        elif op == "eq":
            r = 1 if g(a[0]) == g(a[1]) else 0
        elif op == "ult":
            r = 1 if g(a[0]) < g(a[1]) else 0
        elif op == "slt":
            r = 1 if _sg(a[2], g(a[0])) < _sg(a[2], g(a[1])) else 0
        elif op == "shl":
            n = g(a[1])
            r = (g(a[0]) << n) & ((1 << w) - 1) if n < w else 0
        elif op == "lshr":
            n = g(a[1])
            r = g(a[0]) >> n if n < w else 0
        elif op == "ashr":
            n = min(g(a[1]), w - 1)
            r = (_sg(w, g(a[0])) >> n) & ((1 << w) - 1)
        elif op == "udiv":
            d = g(a[1])
            r = g(a[0]) // d if d else (1 << w) - 1
        elif op == "urem":
            d = g(a[1])
            r = g(a[0]) % d if d else g(a[0])
        elif op == "sdiv":
            d = g(a[1])
            r = sdiv(w, g(a[0]), d) if d else (1 << w) - 1
        elif op == "srem":
            d = g(a[1])
            r = srem(w, g(a[0]), d) if d else g(a[0])
        elif op == "ctpop":
            r = bin(g(a[0])).count("1")
        elif op == "fshl":
            n = g(a[2])
            r = ((g(a[0]) << n) | (g(a[1]) >> (w - n))) & ((1 << w) - 1)
        elif op == "fshr":
            n = g(a[2])
            r = ((g(a[0]) << (w - n)) | (g(a[1]) >> n)) & ((1 << w) - 1) if n else g(a[1])
        else:
            raise NotImplementedError(op)
        v[t.id] = r
    return v


def evaluate(roots, env, default=0):
    v = eval_order(cone(roots), env, default)
    return [r if type(r) is int else (None if r is UNDEF else v[r.id]) for r in roots]


def rebuild(t, sub):
    """rebuild t with children mapped through sub (dict id -> value)"""
    op = t.op
    a = t.a
    w = t.w

    def g(x):
        if type(x) is T:
            return sub.get(x.id, x)
        return x

    if op == "var":
        return t
    if op == "cat":
        return cat([(pw, g(x)) for (pw, x) in a])
    if op == "ext":
        return ext(g(a[0]), a[1], w)
    if op == "add":
        r = a[0]
        d = {}
        for (x, k) in a[1]:
            r += _lin(w, g(x), k, d)
        return _linmk(w, r, d)
    if op == "xor":
        r = a[0]
        for x in a[1]:
            r = xor_(w, r, g(x))
        return r
    if op == "and":
        r = g(a[0])
        for x in a[1:]:
            r = and_(w, r, g(x))
        return r
    if op == "or":
        r = g(a[0])
        for x in a[1:]:
            r = or_(w, r, g(x))
        return r
    if op == "mul":
        return mul(w, g(a[0]), g(a[1]))
    if op == "ite":
        return ite_w(w, g(a[0]), g(a[1]), g(a[2]))
    if op == "eq":
        x = a[0]
        return eq(x.w if type(x) is T else a[1].w, g(a[0]), g(a[1]))
    if op == "ult":
        return ult(a[2], g(a[0]), g(a[1]))
    if op == "slt":
        return slt(a[2], g(a[0]), g(a[1]))
    if op == "ctpop":
        return ctpop(w, g(a[0]))
    f = {"shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv,
         "srem": srem}.get(op)
    if f:
        return f(w, g(a[0]), g(a[1]))
    if op == "fshl":
        return fshl(w, g(a[0]), g(a[1]), g(a[2]))
    if op == "fshr":
        return fshr(w, g(a[0]), g(a[1]), g(a[2]))
    raise NotImplementedError(op)


def substitute(roots, env):
    """replace variables (by name) with values; returns new roots"""
    sub = {}
    for t in cone(roots):
        if t.op == "var":
            sub[t.id] = env.get(t.a[0], t)
        else:
            sub[t.id] = rebuild(t, sub)
    return [sub[r.id] if type(r) is T else r for r in roots]
