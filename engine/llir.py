"""Parser for textual LLVM IR as emitted by rustc (opaque pointers, v0 mangling)."""
import re

TOK = re.compile(
    r'\s*(?:(c?"(?:[^"\\]|\\.)*")'          # 1 strings
    r'|([%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))'  # 2 locals/globals
    r'|(#\d+)'                                # 3 attribute group
    r'|(![\w.]*(?:\{)?)'                      # 4 metadata
    r'|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w.]))'   # 5 numbers
    r'|(0x[0-9A-Fa-f]+)'                      # 6 hex
    r'|(\.\.\.)'                              # 7
    r'|([A-Za-z_][\w.]*)'                     # 8 words
    r'|([\[\]<>(){},=*:|]))')                 # 9 punct


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise ParseError("token at %r" % s[pos:pos + 40])
        pos = m.end()
        out.append(m.group(m.lastindex))
    return out


# ------------------------------------------------------------------ types
# ('i',n) ('p',) ('v',n,T) ('a',n,T) ('s',(T..),packed) ('void',) ('f',bits) ('md',)
PTR = ("p",)
VOID = ("void",)


class Toks:
    __slots__ = ("t", "i")

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError("expected %s got %s in %s" % (x, y, " ".join(self.t)))


class DataLayout:
    def __init__(self, s):
        self.big = s.startswith("E")
        self.ptr = 8
        self.ialign = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}
        m = {}
        for part in s.split("-"):
            f = part.split(":")
            if f[0] == "p" or f[0] == "p0":
                self.ptr = int(f[1]) // 8
                self.palign = int(f[2]) // 8
            elif re.fullmatch(r"i\d+", f[0]):
                m[int(f[0][1:])] = int(f[1]) // 8
        if self.ptr == 4 and 64 not in m:
            self.ialign[64] = 4
        self.ialign.update(m)
        if self.ptr == 8 and not hasattr(self, "palign"):
            self.palign = 8

    def size(self, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == "p":
            return self.ptr
        if k == "v":
            b = t[1] * (t[2][1] if t[2][0] == "i" else self.ptr * 8 if t[2][0] == "p" else t[2][1])
            return (b + 7) // 8
        if k == "a":
            return t[1] * self.size(t[2])
        if k == "s":
            off = 0
            al = 1
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(f)
            return (off + al - 1) // al * al
        if k == "f":
            return t[1] // 8
        raise ParseError("size of %r" % (t,))

    def align(self, t):
        k = t[0]
        if k == "i":
            for b in sorted(self.ialign):
                if t[1] <= b:
                    return self.ialign[b]
            return 16
        if k == "p":
            return self.ptr
        if k == "v":
            s = self.size(t)
            a = 1
            while a < s:
                a *= 2
            return a
        if k == "a":
            return self.align(t[2])
        if k == "s":
            return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        if k == "f":
            return t[1] // 8
        return 1

    def field_offset(self, t, i):
        off = 0
        for j, f in enumerate(t[1]):
            a = 1 if t[2] else self.align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.size(f)
        raise ParseError("field")


FLOATS = {"half": 16, "bfloat": 16, "float": 32, "double": 64, "fp128": 128, "x86_fp80": 80}


def parse_type(ts, named=None):
    x = ts.next()
    if x[0] == "i" and x[1:].isdigit():
        t = ("i", int(x[1:]))
    elif x == "ptr":
        t = PTR
        if ts.peek() == "addrspace":
            ts.next(); ts.expect("("); ts.next(); ts.expect(")")
    elif x == "void":
        t = VOID
    elif x == "[":
        n = int(ts.next())
        ts.expect("x")
        e = parse_type(ts, named)
        ts.expect("]")
        t = ("a", n, e)
    elif x == "<":
        if ts.accept("{"):
            fs = []
            if not ts.accept("}"):
                while True:
                    fs.append(parse_type(ts, named))
                    if ts.accept("}"):
                        break
                    ts.expect(",")
            ts.expect(">")
            t = ("s", tuple(fs), True)
        else:
            n = int(ts.next())
            ts.expect("x")
            e = parse_type(ts, named)
            ts.expect(">")
            t = ("v", n, e)
    elif x == "{":
        fs = []
        if not ts.accept("}"):
            while True:
                fs.append(parse_type(ts, named))
                if ts.accept("}"):
                    break
                ts.expect(",")
        t = ("s", tuple(fs), False)
    elif x in FLOATS:
        t = ("f", FLOATS[x])
    elif x == "metadata":
        t = ("md",)
    elif x == "token":
        t = ("tok",)
    elif x == "label":
        t = ("label",)
    elif x[0] == "%" and named and x in named:
        t = named[x]
    else:
        raise ParseError("type %s in %s" % (x, " ".join(ts.t[:40])))
    # function types:  ret (args)
    return t


def unescape(s):
    """c"..." -> bytes"""
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


CASTS = {"ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast", "ptrtoaddr"}


def parse_value(ts, t, named=None):
    """operand: ('k',int) ('l',name) ('g',name) ('u',) ('agg',[ops],t) ('ce',...)"""
    x = ts.next()
    c = x[0]
    if c == "%":
        return ("l", x)
    if c == "@":
        return ("g", x)
    if x in ("undef", "poison"):
        return ("u",)
    if x == "true":
        return ("k", 1)
    if x == "false":
        return ("k", 0)
    if x == "null" or x == "none":
        return ("k", 0)
    if x == "zeroinitializer":
        return ("z",)
    if x == "splat":
        ts.expect("(")
        et = parse_type(ts, named)
        v = parse_value(ts, et, named)
        ts.expect(")")
        return ("agg", [v] * t[1])
    if c.isdigit() or c == "-":
        if t[0] == "i":
            return ("k", int(x) & ((1 << t[1]) - 1))
        return ("float", x)
    if x.startswith('c"'):
        return ("bytes", unescape(x))
    if c in "[<{":
        close = {"[": "]", "<": ">", "{": "}"}[c]
        packed = False
        if c == "<" and ts.peek() == "{":
            ts.next()
            close = "}"
            packed = True
        vs = []
        if not ts.accept(close):
            while True:
                et = parse_type(ts, named)
                vs.append(parse_value(ts, et, named))
                if ts.accept(close):
                    break
                ts.expect(",")
        if packed:
            ts.expect(">")
        return ("agg", vs)
    if x == "getelementptr":
        while ts.peek() in ("inbounds", "nuw", "nusw") or ts.peek() == "inrange":
            if ts.next() == "inrange":
                ts.expect("(")
                while ts.next() != ")":
                    pass
        ts.expect("(")
        bt = parse_type(ts, named)
        ts.expect(",")
        pt = parse_type(ts, named)
        base = parse_value(ts, pt, named)
        idx = []
        while ts.accept(","):
            it = parse_type(ts, named)
            idx.append((it, parse_value(ts, it, named)))
        ts.expect(")")
        return ("gep", bt, base, idx)
    if x in CASTS:
        ts.expect("(")
        ft = parse_type(ts, named)
        v = parse_value(ts, ft, named)
        ts.expect("to")
        tt = parse_type(ts, named)
        ts.expect(")")
        return ("cast", x, ft, v, tt)
    if x in ("add", "sub", "mul", "xor", "shl"):
        while ts.peek() in ("nuw", "nsw"):
            ts.next()
        ts.expect("(")
        t1 = parse_type(ts, named)
        a = parse_value(ts, t1, named)
        ts.expect(",")
        t2 = parse_type(ts, named)
        b = parse_value(ts, t2, named)
        ts.expect(")")
        return ("bin", x, t1, a, b)
    raise ParseError("value %s in %s" % (x, " ".join(ts.t)[:300]))


PATTRS = {
    "noundef", "nonnull", "noalias", "nofree", "nocapture", "readonly", "writeonly", "writable",
    "readnone", "signext", "zeroext", "inreg", "returned", "dead_on_unwind", "immarg", "swiftself",
    "swifterror", "noext", "nest", "allocptr", "allocalign", "dead_on_return",
}
PATTRS_ARG = {"dereferenceable", "dereferenceable_or_null", "captures", "initializes", "range",
              "align", "sret", "byval", "elementtype", "nofpclass", "byref", "inalloca",
              "preallocated", "alignstack", "dead_on_return"}


def skip_attrs(ts, named=None):
    """parameter attributes; returns dict of the interesting ones"""
    at = {}
    while True:
        x = ts.peek()
        if x is None:
            return at
        if x in PATTRS and not (x == "dead_on_return" and ts.peek(1) == "("):
            ts.next()
        elif x in PATTRS_ARG:
            ts.next()
            if x == "align" and ts.peek() != "(":
                at["align"] = int(ts.next())
                continue
            if ts.peek() == "(":
                ts.next()
                if x in ("sret", "byval"):
                    at[x] = parse_type(ts, named)
                    ts.expect(")")
                    continue
                depth = 1
                while depth:
                    y = ts.next()
                    if y == "(":
                        depth += 1
                    elif y == ")":
                        depth -= 1
        elif x and x[0] == '"':
            ts.next()
            if ts.accept("="):
                ts.next()
        else:
            return at


class Func:
    __slots__ = ("name", "ret", "params", "lines", "attrs", "mod", "defined", "pattrs", "internal")


class Global:
    __slots__ = ("name", "ty", "init", "const", "align", "external", "tls", "mod")


LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending",
        "extern_weak", "linkonce_odr", "weak_odr", "external", "default", "hidden", "protected",
        "dso_local", "dso_preemptable", "unnamed_addr", "local_unnamed_addr", "dllimport",
        "dllexport", "externally_initialized"}
CCONV = {"fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "tailcc", "swiftcc",
         "aarch64_vector_pcs", "x86_fastcallcc", "x86_vectorcallcc"}


class Named(dict):
    """named struct types, resolved on first use (they may refer forward)"""

    def __init__(self):
        dict.__init__(self)
        self.raw = {}

    def __contains__(self, k):
        return k in self.raw

    def __bool__(self):
        return True

    def __missing__(self, k):
        t = self[k] = parse_type(Toks(tokenize(self.raw[k])), self)
        return t


class Module:
    def __init__(self, text, name=""):
        self.name = name
        self.funcs = {}
        self.globals = {}
        self.attrgroups = {}
        self.named = Named()
        self.aliases = {}
        self.dl = None
        self.triple = ""
        self._parse(text)

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        gl = []
        for l in lines:
            if l.startswith("%") and " = type " in l:
                nm, _, rest = l.partition(" = type ")
                if rest.strip() != "opaque":
                    self.named.raw[nm] = rest
        while i < n:
            l = lines[i]
            if not l or l[0] in ";! ":
                if l.startswith("attributes"):
                    pass
                i += 1
                continue
            if l.startswith("define "):
                body = []
                hdr = l
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self._func(hdr, body, True)
            elif l.startswith("declare "):
                self._func(l, None, False)
            elif l.startswith("@"):
                gl.append(l)
            elif l.startswith("target datalayout"):
                self.dl = DataLayout(l.split('"')[1])
            elif l.startswith("target triple"):
                self.triple = l.split('"')[1]
            elif l.startswith("attributes "):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrgroups[m.group(1)] = m.group(2)
            i += 1
        for l in gl:
            self._global(l)

    def _global(self, l):
        # strip trailing metadata
        l = re.sub(r"(, ![\w.]+ ![\d{][^,]*)+$", "", l)
        ts = Toks(tokenize(l))
        name = ts.next()
        ts.expect("=")
        g = Global()
        g.name = name
        g.mod = self
        g.external = False
        g.tls = False
        g.align = 1
        g.init = None
        while True:
            x = ts.peek()
            if x in LINK:
                if x in ("external", "extern_weak"):
                    g.external = True
                ts.next()
            elif x == "thread_local":
                g.tls = True
                ts.next()
                if ts.accept("("):
                    ts.next()
                    ts.expect(")")
            elif x == "addrspace":
                ts.next(); ts.expect("("); ts.next(); ts.expect(")")
            else:
                break
        x = ts.next()
        if x == "alias":
            t = parse_type(ts, self.named)
            if ts.accept("("):
                depth = 1
                while depth:
                    y = ts.next()
                    depth += (y == "(") - (y == ")")
            ts.expect(",")
            parse_type(ts, self.named)
            v = parse_value(ts, PTR, self.named)
            if v[0] == "g":
                self.aliases[name] = v[1]
            return
        if x not in ("global", "constant"):
            raise ParseError("global %s" % l[:120])
        g.const = x == "constant"
        g.ty = parse_type(ts, self.named)
        if not g.external and ts.peek() is not None and ts.peek() != ",":
            g.init = parse_value(ts, g.ty, self.named)
        while ts.accept(","):
            y = ts.next()
            if y == "align":
                g.align = int(ts.next())
            elif y in ("section", "partition", "comdat"):
                if ts.peek() not in (None, ","):
                    ts.next()
                    if ts.accept("("):
                        while ts.next() != ")":
                            pass
        self.globals[name] = g

    def _func(self, hdr, body, defined):
        f = Func()
        f.mod = self
        f.defined = defined
        f.lines = body
        f.internal = False
        h = hdr.split(" personality ")[0]
        ts = Toks(tokenize(h.rstrip("{ ")))
        ts.next()
        while ts.peek() in LINK or ts.peek() in CCONV:
            if ts.next() in ("private", "internal"):
                f.internal = True
        skip_attrs(ts, self.named)
        f.ret = parse_type(ts, self.named)
        f.name = ts.next()
        ts.expect("(")
        f.params = []
        f.pattrs = []
        k = 0
        if not ts.accept(")"):
            while True:
                if ts.accept("..."):
                    ts.expect(")")
                    break
                t = parse_type(ts, self.named)
                at = skip_attrs(ts, self.named)
                nm = None
                if ts.peek() and ts.peek()[0] == "%":
                    nm = ts.next()
                elif t[0] != "md" or True:
                    nm = "%" + str(k) if defined else None
                f.params.append((t, nm))
                f.pattrs.append(at)
                k += 1
                if ts.accept(")"):
                    break
                ts.expect(",")
        f.attrs = []
        rest = " ".join(ts.t[ts.i:])
        for m in re.finditer(r"#\d+", hdr):
            f.attrs.append(m.group(0))
        self.funcs[f.name] = f
        del rest

    def fattr(self, f):
        return " ".join(self.attrgroups.get(a, "") for a in f.attrs)


def idents(mangled):
    """the identifiers inside a v0-mangled name, in order"""
    s = mangled.lstrip("@").strip('"')
    out = []
    i = 0
    n = len(s)
    if not s.startswith("_R"):
        return [s]
    i = 2
    while i < n:
        c = s[i]
        if c.isdigit():
            j = i
            while j < n and s[j].isdigit():
                j += 1
            L = int(s[i:j])
            if L == 0 or L > 200:
                i = j
                continue
            if j < n and s[j] == "_":
                j += 1
            idn = s[j:j + L]
            if len(idn) == L and re.fullmatch(r"[A-Za-z_]\w*", idn):
                out.append(idn)
                i = j + L
            else:
                i = j
        elif c in "sB":  # disambiguator / backref: s<base62>_ , B<base62>_
            m = re.match(r"[sB][0-9A-Za-z]*_", s[i:])
            i += m.end() if m else 1
        else:
            i += 1
    return out
