"""Rust sources as token trees with presence conditions: for every token of interest, the
cfg predicate under which it is compiled.  Used by C16 only."""
import os
import re

TOK = re.compile(r'''
 (?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*)|
 (?P<raw>\b(?:b|c)?r(?P<h>\#*)")|
 (?P<str>\b[bc]?"(?:\\.|[^"\\])*"|"(?:\\.|[^"\\])*")|
 (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')|
 (?P<life>'[A-Za-z_]\w*)|
 (?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)|
 (?P<num>\d[\w]*(?:\.\d[\w]*)?)|
 (?P<p>=>|::|->|.)
''', re.X | re.S)


class Tok:
    __slots__ = ("k", "s", "line")

    def __init__(self, k, s, line):
        self.k, self.s, self.line = k, s, line

    def __repr__(self):
        return self.s


class Group:
    __slots__ = ("open", "body", "line", "end")
    k = "group"
    s = ""

    def __init__(self, o, line):
        self.open, self.body, self.line, self.end = o, [], line, line

    def __repr__(self):
        return self.open + " ".join(map(repr, self.body)) + {"(": ")", "[": "]", "{": "}"}[self.open]


def tokens(t):
    i, line = 0, 1
    while i < len(t):
        m = TOK.match(t, i)
        k, e = m.lastgroup, m.end()
        if m.group("bc"):
            d, e = 1, i + 2
            while d and e < len(t):
                if t.startswith("/*", e):
                    d, e = d + 1, e + 2
                elif t.startswith("*/", e):
                    d, e = d - 1, e + 2
                else:
                    e += 1
        elif m.group("raw"):
            q = '"' + m.group("h")
            e = t.index(q, e) + len(q)
            yield Tok("str", t[i:e], line)
        elif m.group("ws") is None and m.group("lc") is None:
            yield Tok(k, m.group(0), line)
        line += t.count("\n", i, e)
        i = e


def tree(t):
    st = [Group("{", 1)]
    for k in tokens(t):
        if k.s in "([{" and k.k == "p":
            g = Group(k.s, k.line)
            st[-1].body.append(g)
            st.append(g)
        elif k.s in ")]}" and k.k == "p":
            if len(st) > 1:
                st[-1].end = k.line
                st.pop()
        else:
            st[-1].body.append(k)
    return st[0].body


# ---------------------------------------------------------------- cfg predicates
def pred(ts):
    """token list of a cfg predicate -> nested tuples"""
    ts = list(ts)
    if not ts:
        return ("true",)
    n = ts[0].s
    if len(ts) > 1 and isinstance(ts[1], Group):
        args = [pred(a) for a in commas(ts[1].body)]
        if n == "not":
            return ("not", args[0])
        return ("and" if n == "all" else "or",) + tuple(args)
    if len(ts) > 2 and ts[1].s == "=":
        return ("atom", n, ts[2].s.strip('"'))
    if n in ("true", "false"):
        return (n,)
    return ("atom", n, None)


def commas(b):
    out, cur = [], []
    for t in b:
        if t.s == "," and t.k == "p":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def conj(*ps):
    ps = [p for p in ps if p != ("true",)]
    return ("true",) if not ps else ps[0] if len(ps) == 1 else ("and",) + tuple(ps)


def atoms(p, out=None):
    out = set() if out is None else out
    if p[0] == "atom":
        out.add(p[1:])
    else:
        for q in p[1:]:
            atoms(q, out)
    return out


def holds(p, val):
    k = p[0]
    if k == "atom":
        return val(p[1], p[2])
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "not":
        return not holds(p[1], val)
    return (all if k == "and" else any)(holds(q, val) for q in p[1:])


BLOCKY = {"fn", "impl", "mod", "trait", "struct", "enum", "union", "extern", "unsafe", "async", "if", "match", "for", "while",
          "loop", "macro_rules"}
UNSAFE_ATTR = {"no_mangle", "export_name", "link_section"}


class Occ:
    """something the unsafe_code lint is about"""

    def __init__(self, file, line, what, cond, item, macro, fn, head):
        self.file, self.line, self.what, self.cond = file, line, what, cond
        self.item, self.macro, self.fn, self.head = item, macro, fn, head

    def __repr__(self):
        return "%s:%d %s" % (self.file, self.line, self.what)


class Item:
    """a named item outside any function"""

    def __init__(self, name, kind, file, line, cond, mentions):
        self.name, self.kind, self.file, self.line, self.cond, self.mentions = name, kind, file, line, cond, mentions


class Crate:
    def __init__(self, root):
        self.root = root
        self.occs = []
        self.items = []
        self.calls = []            # (macro name, file, line, cond)
        self.fns = []              # (file, first line, last line)
        self.files = {}
        self.missing = []
        self.mods(os.path.join(root, "src", "lib.rs"), ("true",), True)

    # -------------------------------------------------------------- files
    def mods(self, path, cond, top=False):
        rel = os.path.relpath(path, self.root)
        if not os.path.exists(path):
            self.missing.append((rel, cond))
            return
        if rel in self.files and self.files[rel] == cond:
            return
        self.files[rel] = cond
        ts = tree(open(path).read())
        base = os.path.dirname(path)
        stem = os.path.basename(path)[:-3]
        self.dir = base if top or stem == "mod" else os.path.join(base, stem)
        self.walk(ts, cond, rel, (None, None, None, None), self.dir, base)

    def attr(self, g, rel, cond, ctx):
        """(cfg condition or None, path or None, list of (cond, attribute tokens))"""
        b = g.body
        if b and b[0].s == "cfg" and len(b) > 1:
            return pred(b[1].body), []
        if b and b[0].s == "cfg_attr" and len(b) > 1:
            parts = commas(b[1].body)
            c = pred(parts[0])
            return ("true",), [(c, p) for p in parts[1:]]
        return ("true",), [(("true",), b)]

    def special(self, ats, rel, cond, ctx, line):
        path = []
        for c, b in ats:
            if not b:
                continue
            n = b[0].s
            inner = b
            if n == "unsafe" and len(b) > 1 and isinstance(b[1], Group):
                inner = b[1].body
                n = inner[0].s if inner else ""
            if n in UNSAFE_ATTR:
                self.occ(rel, line, "#[%s]" % n, conj(cond, c), ctx)
            if n in ("allow", "warn", "expect") and len(b) > 1 and any(
                    [x.s for x in p] == ["unsafe_code"] for p in commas(b[1].body)):
                self.occ(rel, line, "%s(unsafe_code)" % n, conj(cond, c), ctx)
            if n == "path" and len(b) > 2:
                path.append((c, b[2].s.strip('"')))
        return path

    def occ(self, rel, line, what, cond, ctx):
        self.occs.append(Occ(rel, line, what, cond, ctx[0], ctx[1], ctx[2], ctx[3]))

    # -------------------------------------------------------------- sequences
    def walk(self, ts, cond, rel, ctx, mdir, base):
        i, n = 0, len(ts)
        while i < n:
            # inner attributes hold for the rest of the sequence
            if ts[i].s == "#" and i + 2 < n and ts[i + 1].s == "!" and isinstance(ts[i + 2], Group):
                c, ats = self.attr(ts[i + 2], rel, cond, ctx)
                cond = conj(cond, c)
                self.special(ats, rel, cond, ctx, ts[i].line)
                i += 3
                continue
            ec, paths = cond, []
            start = i
            while i + 1 < n and ts[i].s == "#" and isinstance(ts[i + 1], Group):
                c, ats = self.attr(ts[i + 1], rel, cond, ctx)
                ec = conj(ec, c)
                paths += [(ats, ts[i].line)]
                i += 2
            if i >= n:
                break
            j = self.extent(ts, i)
            pp = []
            for ats, line in paths:
                pp += self.special(ats, rel, ec, ctx, line)
            self.element(ts[i:j], ec, rel, ctx, mdir, base, pp)
            i = j

    def extent(self, ts, i):
        n = len(ts)
        j = i
        # qualifiers
        while j < n and (ts[j].s in ("pub", "default", "const", "async") or (isinstance(ts[j], Group) and j > i and
                                                                            ts[j - 1].s == "pub")):
            if ts[j].s == "const" and not (j + 1 < n and ts[j + 1].s in ("fn", "unsafe", "extern", "async")):
                break
            j += 1
        if j >= n:
            return n
        blocky = ts[j].s in BLOCKY or (isinstance(ts[j], Group) and ts[j].open == "{") or ts[j].k == "life"
        arrow = False
        while j < n:
            t = ts[j]
            if isinstance(t, Group) and t.open == "{" and (blocky or arrow):
                j += 1
                if j < n and ts[j].s == "else":
                    j += 1
                    continue
                if j < n and ts[j].s in (";", ","):
                    j += 1
                return j
            if t.s == ";" or (t.s == "," and not blocky):
                return j + 1
            arrow = t.s == "=>"
            j += 1
        return n

    def element(self, ts, cond, rel, ctx, mdir, base, paths):
        words = [t.s for t in ts]
        # visibility and qualifiers
        k = 0
        while k < len(ts) and (ts[k].s in ("pub", "default", "const", "async", "unsafe", "extern") or ts[k].k == "str" or
                               (isinstance(ts[k], Group) and k and ts[k - 1].s == "pub")):
            if ts[k].s == "const" and not (k + 1 < len(ts) and ts[k + 1].s in ("fn", "unsafe", "extern", "async")):
                break
            if ts[k].s == "unsafe" and k + 1 < len(ts) and isinstance(ts[k + 1], Group) and ts[k + 1].open == "{":
                break
            k += 1
        kw = words[k] if k < len(ts) else ""
        name = words[k + 1] if k + 1 < len(ts) else ""
        if kw == "mod" and k + 2 < len(ts) and ts[k + 2].s == ";":
            done = ("true",)
            for c, p in paths:
                self.mods(os.path.normpath(os.path.join(base, p)), conj(cond, c))
                done = conj(done, ("not", c))
            if all(c != ("true",) for c, _ in paths):
                f = os.path.join(mdir, name + ".rs")
                if not os.path.exists(f):
                    f = os.path.join(mdir, name, "mod.rs")
                self.mods(f, conj(cond, done))
            return
        if kw == "mod":
            mdir, base = os.path.join(mdir, name), os.path.join(mdir, name)
        item = macro = fn = head = None
        item, macro, fn, head = ctx
        if fn is None and macro is None:
            if kw == "macro_rules" and len(ts) > k + 2:
                name = words[k + 2]
                macro = name
                self.items.append(Item(name, "macro", rel, ts[k].line, cond, idents(ts)))
                item = name
            elif kw in ("fn", "struct", "enum", "union", "trait", "const", "static", "type"):
                if name in ("mut", "ref"):
                    name = words[k + 2]
                if item is None:
                    item = name
                    self.items.append(Item(name, kw, rel, ts[k].line, cond, idents(ts)))
            elif kw == "use":
                self.items.append(Item("use", "use", rel, ts[0].line, cond, idents(ts)))
            elif kw == "impl":
                h = []
                for t in ts[k + 1:]:
                    if isinstance(t, Group) and t.open == "{":
                        break
                    h += [t]
                head = idents(h)
                item = "impl " + " ".join(sorted(head))
                self.items.append(Item(item, "impl", rel, ts[k].line, cond, idents(ts)))
        if kw == "fn":
            last = ts[-1]
            self.fns.append((rel, ts[k].line, last.end if isinstance(last, Group) else last.line))
            fn = (rel, ts[k].line)
        sub = (item, macro, fn, head)
        seq = kw in ("fn", "impl", "mod", "trait", "struct", "enum", "union", "extern", "macro_rules")
        for i, t in enumerate(ts):
            if isinstance(t, Group):
                self.inside(t, cond, rel, sub, mdir, base)
                continue
            if t.s == "unsafe" and t.k == "id":
                self.occ(rel, t.line, "unsafe", cond, sub)
            elif t.s in ("global_asm", "naked_asm") and i + 1 < len(ts) and ts[i + 1].s == "!":
                self.occ(rel, t.line, t.s, cond, sub)
            elif t.k == "id" and i + 2 < len(ts) and ts[i + 1].s == "!" and isinstance(ts[i + 2], Group) and t.s != "macro_rules":
                self.calls.append((t.s, rel, t.line, cond, sub))

    def inside(self, g, cond, rel, ctx, mdir, base):
        self.walk(g.body, cond, rel, ctx, mdir, base)


def idents(ts):
    out = set()
    for t in ts:
        if isinstance(t, Group):
            out |= idents(t.body)
        elif t.k == "id":
            out.add(t.s)
    return out
