"""A small Rust lexer and item scanner: enough to find items, function
signatures, bodies and loops in a source file, by position.  It never rewrites
anything itself."""
import re

_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
_PUNCT3 = ("..=", "<<=", ">>=", "...")
_PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=",
           "/=", "%=", "^=", "&=", "|=", "..", "<<", ">>")


class Tok:
    __slots__ = ("kind", "text", "s", "e")

    def __init__(self, kind, text, s, e):
        self.kind, self.text, self.s, self.e = kind, text, s, e

    def __repr__(self):
        return "%s" % self.text


class LexError(Exception):
    pass


def lex(src):
    """Tokens without whitespace and comments."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.match(r'(?:b|c|br|cr|r)?(#*)"', src[i:i + 40]) if c in 'bcr"' else None
        if m and (c == '"' or '"' in m.group(0)):
            pre = m.group(0)
            raw = "r" in pre.split("#")[0].split('"')[0]
            j = i + len(pre)
            if raw:
                end = '"' + m.group(1)
                k = src.find(end, j)
                if k < 0:
                    raise LexError("unterminated raw string")
                j = k + len(end)
            else:
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == "b" and src.startswith("b'", i)):
            k = i + (2 if c == "b" else 1)
            if k < n and src[k] == "\\":
                j = src.index("'", k + 2)
                out.append(Tok("char", src[i:j + 1], i, j + 1))
                i = j + 1
                continue
            if k + 1 < n and src[k + 1] == "'" and src[k] != "'":
                out.append(Tok("char", src[i:k + 2], i, k + 2))
                i = k + 2
                continue
            m = _ID.match(src, k)
            if m:
                out.append(Tok("life", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            raise LexError("bad quote at %d" % i)
        m = _ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            # beware of ranges (0..n) and tuple fields (x.0.1)
            m = re.compile(r"[0-9][0-9A-Za-z_]*").match(src, i)
            j = m.end()
            if j + 1 < n and src[j] == "." and src[j + 1].isdigit() and not (out and out[-1].text == "."):
                m2 = re.compile(r"\.[0-9][0-9A-Za-z_]*").match(src, j)
                j = m2.end()
            elif j < n and src[j] == "." and not src.startswith("..", j) and not (j + 1 < n and (src[j + 1].isalpha() or src[j + 1] == "_")) \
                    and not (out and out[-1].text == "."):
                j += 1
            out.append(Tok("num", src[i:j], i, j))
            i = j
            continue
        for p in _PUNCT3:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + 3))
                i += 3
                break
        else:
            for p in _PUNCT2:
                if src.startswith(p, i):
                    out.append(Tok("p", p, i, i + 2))
                    i += 2
                    break
            else:
                out.append(Tok("p", c, i, i + 1))
                i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_table(toks):
    """index of opening token -> index of the closing one (and back)."""
    st, m = [], {}
    for i, t in enumerate(toks):
        if t.kind != "p":
            continue
        if t.text in OPEN:
            st.append(i)
        elif t.text in CLOSE:
            if not st or OPEN[toks[st[-1]].text] != t.text:
                raise LexError("unbalanced %s at %d" % (t.text, t.s))
            j = st.pop()
            m[j] = i
            m[i] = j
    if st:
        raise LexError("unbalanced")
    return m


class Item:
    def __init__(self, kind, name, key, first, last):
        self.kind, self.name, self.key = kind, name, key
        self.first, self.last = first, last      # token indexes, attributes included
        self.attrs = []                          # texts
        self.sig = None                          # token index of the first token after attributes/visibility
        self.body = None                         # (open, close) token indexes
        self.children = []
        self.parent = None
        self.ret = None                          # (first, last) token indexes of the return type
        self.where = None                        # token index of `where`
        self.loops = []
        self.local = False


class File:
    def __init__(self, src):
        self.src = src
        self.toks = lex(src)
        self.m = match_table(self.toks)
        self.items = self.scan(0, len(self.toks), None)

    # ---------------------------------------------------------------- items
    def text(self, a, b):
        """source text of tokens a..b inclusive"""
        return self.src[self.toks[a].s:self.toks[b].e]

    def compact(self, a, b):
        out = ""
        for t in self.toks[a:b + 1]:
            if out and (out[-1].isalnum() or out[-1] == "_") and (t.text[0].isalnum() or t.text[0] == "_"):
                out += " "
            out += t.text
        return out

    def skip_generics(self, i):
        """i at '<': index after the matching '>'"""
        d = 0
        while True:
            t = self.toks[i].text
            if t == "<":
                d += 1
            elif t == ">":
                d -= 1
            elif t == ">>":
                d -= 2
            elif t in OPEN:
                i = self.m[i]
            i += 1
            if d <= 0:
                return i

    def scan(self, i, end, parent):
        T = self.toks
        items = []
        while i < end:
            first = i
            attrs = []
            while i < end and T[i].text == "#":
                j = i + 1
                if T[j].text == "!":
                    j += 1
                attrs.append(self.text(i, self.m[j]))
                i = self.m[j] + 1
            if i >= end:
                break
            sig = i
            if T[i].text == "pub":
                i += 1
                if T[i].text == "(":
                    i = self.m[i] + 1
            quals = []
            while T[i].text in ("const", "async", "unsafe", "extern", "default") and T[i + 1].text in ("fn", "unsafe", "extern", "impl", "trait", "async") or (T[i].text == "extern" and T[i + 1].kind == "str"):
                quals.append(T[i].text)
                i += 1
                if T[i].kind == "str":
                    i += 1
            k = T[i].text
            if k == "fn":
                it, i = self.scan_fn(first, sig, i, parent)
            elif k in ("struct", "enum", "union"):
                name = T[i + 1].text
                j = i + 2
                while T[j].text not in ("{", ";"):
                    if T[j].text == "<":
                        j = self.skip_generics(j)
                    elif T[j].text in OPEN:
                        j = self.m[j] + 1
                    else:
                        j += 1
                last = self.m[j] if T[j].text == "{" else j
                it = Item(k, name, name, first, last)
                if T[j].text == "{":
                    it.body = (j, self.m[j])
                i = last + 1
            elif k == "trait":
                name = T[i + 1].text
                j = i + 2
                while T[j].text not in ("{", ";"):
                    j = self.skip_generics(j) if T[j].text == "<" else (self.m[j] + 1 if T[j].text in OPEN else j + 1)
                it = Item("trait", name, name, first, self.m[j])
                it.body = (j, self.m[j])
                it.sig = sig
                it.children = self.scan(j + 1, self.m[j], it)
                i = self.m[j] + 1
            elif k == "impl":
                j = i + 1
                if T[j].text == "<":
                    j = self.skip_generics(j)
                a = j
                where = None
                forat = None
                while T[j].text != "{":
                    if T[j].text == "where":
                        where = where or j
                    if T[j].text == "for" and where is None and T[j + 1].text != "<":
                        forat = j
                    j = self.skip_generics(j) if T[j].text == "<" else (self.m[j] + 1 if T[j].text in OPEN else j + 1)
                stop = (where or j) - 1
                if forat is None:
                    ty = self.short_ty(a, stop)
                    key, name = ty, ty
                else:
                    tr = self.compact(a, forat - 1)
                    ty = self.short_ty(forat + 1, stop)
                    key, name = "<%s as %s>" % (ty, tr), ty
                it = Item("impl", name, key, first, self.m[j])
                it.body = (j, self.m[j])
                it.sig = sig
                # methods need the key for their own
                it.children = self.scan(j + 1, self.m[j], it)
                i = self.m[j] + 1
            elif k == "mod":
                name = T[i + 1].text
                if T[i + 2].text == ";":
                    it = Item("mod", name, name, first, i + 2)
                else:
                    it = Item("mod", name, name, first, self.m[i + 2])
                    it.body = (i + 2, self.m[i + 2])
                i = it.last + 1
            elif k == "macro_rules":
                j = i + 3
                last = self.m[j]
                if T[j].text != "{":
                    last += 1
                it = Item("macro", T[i + 2].text, T[i + 2].text + "!", first, last)
                i = last + 1
            elif k in ("use", "const", "static", "type", "extern"):
                j = i
                while T[j].text != ";":
                    j = self.m[j] + 1 if T[j].text in OPEN else j + 1
                name = T[i + 1].text
                it = Item(k, name, name if k != "use" else "use " + self.compact(i + 1, j - 1), first, j)
                i = j + 1
            elif T[i].kind == "id" and T[i + 1].text == "!":
                j = i + 2
                last = self.m[j]
                if last + 1 < end and T[last + 1].text == ";":
                    last += 1
                it = Item("maccall", T[i].text, T[i].text + "!()", first, last)
                i = last + 1
            else:
                raise LexError("unknown item at %r" % self.src[T[i].s:T[i].s + 60])
            it.attrs = attrs
            if it.sig is None:
                it.sig = sig
            it.parent = parent
            items.append(it)
        return items

    def short_ty(self, a, b):
        s = self.compact(a, b)
        m = re.match(r"^((?:\w+::)*)(\w+)<", s)
        if m and s.endswith(">"):
            return m.group(1) + m.group(2)
        return s

    def scan_fn(self, first, sig, i, parent):
        T = self.toks
        name = T[i + 1].text
        j = i + 2
        if T[j].text == "<":
            j = self.skip_generics(j)
        assert T[j].text == "(", T[j]
        params = (j, self.m[j])
        j = self.m[j] + 1
        ret = where = None
        if T[j].text == "->":
            r0 = j + 1
            j = r0
            while T[j].text not in ("{", ";", "where"):
                j = self.skip_generics(j) if T[j].text == "<" else (self.m[j] + 1 if T[j].text in OPEN else j + 1)
            ret = (r0, j - 1)
        if T[j].text == "where":
            where = j
            while T[j].text not in ("{", ";"):
                j = self.skip_generics(j) if T[j].text == "<" else (self.m[j] + 1 if T[j].text in OPEN else j + 1)
        if T[j].text == "{":
            last, body = self.m[j], (j, self.m[j])
        else:
            last, body = j, None
        pk = parent.key if parent is not None else ""
        sep = "/" if parent is not None and parent.kind == "fn" else "::"
        key = (pk + sep + name) if pk else name
        it = Item("fn", name, key, first, last)
        it.sig, it.body, it.ret, it.where, it.params = sig, body, ret, where, params
        it.fnkw = i
        it.sigend = j            # token index of `{` or `;`
        if body:
            self.scan_body(it)
        return it, last + 1

    def scan_body(self, fn):
        """loops, and items nested in the body"""
        T = self.toks
        i, end = fn.body[0] + 1, fn.body[1]
        while i < end:
            t = T[i]
            prev = T[i - 1].text
            stmt_pos = prev in ("{", "}", ";", "]")
            if t.kind == "id" and stmt_pos and t.text in ("fn", "struct", "enum", "impl", "trait", "const", "use", "type") and not (t.text == "const" and T[i + 1].text == "{"):
                a = i
                # back over attributes
                while T[a - 1].text == "]" and T[self.m[a - 1] - 1].text == "#":
                    a = self.m[a - 1] - 1
                sub = self.scan_one(a, end, fn)
                sub.local = True
                fn.children.append(sub)
                i = sub.last + 1
                continue
            if t.kind == "id" and t.text in ("while", "loop", "for") and prev != "." and not (t.text == "for" and T[i + 1].text == "<"):
                j = i + 1
                while T[j].text != "{":
                    j = self.m[j] + 1 if T[j].text in OPEN else j + 1
                inkw = None
                if t.text == "for":
                    k = i + 1
                    while T[k].text != "in":
                        k = self.m[k] + 1 if T[k].text in OPEN else k + 1
                    inkw = k
                fn.loops.append((t.text, i, j, inkw))
            i += 1

    def scan_one(self, a, end, parent):
        T = self.toks
        # find the extent by scanning items from a, keeping only the first
        j = a
        save = []
        # scan() would continue into statements: cut at the first item
        i = a
        while T[i].text == "#":
            i = self.m[i + 1] + 1
        k = T[i].text
        if k in ("use", "const", "static", "type"):
            j = i
            while T[j].text != ";":
                j = self.m[j] + 1 if T[j].text in OPEN else j + 1
            last = j
        else:
            j = i
            while T[j].text not in ("{", ";"):
                if T[j].text == "<" and k in ("fn", "struct", "enum", "impl", "trait"):
                    j = self.skip_generics(j)
                elif T[j].text in OPEN:
                    j = self.m[j] + 1
                else:
                    j += 1
            last = self.m[j] if T[j].text == "{" else j
        return self.scan(a, last + 1, parent)[0]

    def all_fns(self):
        out = []

        def rec(items):
            for it in items:
                if it.kind == "fn":
                    out.append(it)
                rec(it.children)
        rec(self.items)
        return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def find_bound(toks, a, b, pat):
    """(first, last, {name: (first, last)}) for every occurrence of pat in toks[a..b).  `$E` in pat stands for the
    shortest run of one or more tokens, balanced in parentheses and without a semicolon outside of them, after which
    the rest of pat matches."""
    p, raw, k = [], [t.text for t in lex(pat)], 0
    while k < len(raw):
        if raw[k] == "$" and k + 1 < len(raw):
            p.append((raw[k + 1],))
            k += 2
        else:
            p.append(raw[k])
            k += 1

    def match(i, k, env):
        while k < len(p):
            if isinstance(p[k], tuple):
                j, depth = i, 0
                while j < b:
                    t = toks[j].text
                    if t in OPEN:
                        depth += 1
                    elif t in OPEN.values():
                        depth -= 1
                        if depth < 0:
                            return None
                    elif t == ";" and depth == 0:
                        return None
                    j += 1
                    if depth == 0:
                        r = match(j, k + 1, dict(env, **{p[k][0]: (i, j - 1)}))
                        if r:
                            return r
                return None
            if i >= b or toks[i].text != p[k]:
                return None
            i += 1
            k += 1
        return i - 1, env

    res = []
    for i in range(a, b):
        if isinstance(p[0], tuple) or toks[i].text == p[0]:
            r = match(i, 0, {})
            if r:
                res.append((i, r[0], r[1]))
    return res


def find_pattern(toks, a, b, pat):
    """token indexes (first, last) of every occurrence of pat in toks[a..b)"""
    return [(f, l) for f, l, _ in find_bound(toks, a, b, pat)]
