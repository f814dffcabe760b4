"""Mechanical extraction: reads the sources under /repo/src as they are now,
splices the contracts of /verif/contracts into them and writes one Verus crate.

Executable text comes from /repo only.  What the weaver does to it is limited
to the operations listed in `Report` (dropped items, opaque bodies, rewrites,
visibility widening, removal of diagnostics output); each application is
recorded and ends up in the evidence file."""
import hashlib, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex, macros
from rustlex import File, lex, find_bound, find_pattern

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CNIIC_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")


class Spec:
    """one .vspec file"""

    def __init__(self, path):
        self.file = path
        self.module = self.src = None
        self.top, self.bottom = [], []
        self.drops, self.grewrites, self.attrs, self.inside = [], [], [], {}
        self.fns = {}
        self.order = []
        self.keepuse = None
        self.expand = False
        self.only = []        # top-level items woven here; the others are woven elsewhere
        self.parse(open(path).read())

    def parse(self, text):
        cur = None          # list receiving text lines
        fn = None
        for n, line in enumerate(text.split("\n"), 1):
            if not line.startswith("@@"):
                if cur is not None:
                    cur.append(line)
                elif line.strip() and not line.startswith("#"):
                    raise ValueError("%s:%d: text outside a section" % (self.file, n))
                continue
            cmd, _, arg = line[2:].strip().partition(" ")
            arg = arg.strip()
            reason = ""
            if cmd in ("drop", "opaque", "rewrite", "grewrite") and " -- " in arg:
                arg, reason = arg.rsplit(" -- ", 1)
                arg = arg.strip()
            cur = None
            if cmd == "#":
                pass
            elif cmd == "module":
                self.module, self.src = arg.split()
            elif cmd == "top":
                cur = self.top
            elif cmd == "bottom":
                cur = self.bottom
            elif cmd == "drop":
                self.drops.append((arg, reason))
            elif cmd == "only":
                self.only.append(arg)
            elif cmd == "expand":
                self.expand = True
            elif cmd == "grewrite":
                a, b = arg.split("==>", 1)
                self.grewrites.append((a.strip(), b.strip(), reason))
            elif cmd == "inside":
                cur = self.inside.setdefault(arg, [])
            elif cmd == "attr":
                key, txt = arg.split(" :: ", 1)
                self.attrs.append((key.strip(), txt.strip()))
            elif cmd in ("fn", "opaque"):
                m = re.match(r"^(.*?)(?:\s+ret\s+(\w+))?$", arg)
                key, ret = m.group(1).strip(), m.group(2)
                fn = {"key": key, "ret": ret, "spec": [], "loops": {}, "start": [], "finish": [], "tail": [],
                      "hints": [], "rewrites": [], "forwhile": {}, "opaque": cmd == "opaque", "reason": reason, "line": n,
                      "attrs": []}
                if key in self.fns:
                    raise ValueError("%s:%d: %s twice" % (self.file, n, key))
                self.fns[key] = fn
            elif cmd == "spec":
                cur = fn["spec"]
            elif cmd == "fattr":
                fn["attrs"].append(arg)
            elif cmd == "loop":
                m = re.match(r"^(\d+)(?:\s+iter\s+(\w+))?$", arg)
                cur = []
                fn["loops"][int(m.group(1))] = (m.group(2), cur)
            elif cmd == "forwhile":
                k, nm = arg.split()[:2]
                fn["forwhile"][int(k)] = nm
            elif cmd == "start":
                cur = fn["start"]
            elif cmd == "tail":
                cur = fn["tail"]
            elif cmd == "finish":
                cur = fn["finish"]
            elif cmd in ("before", "after"):
                m = re.match(r"^(.*?)(?:\s+#(\d+))?$", arg)
                cur = []
                fn["hints"].append((cmd, m.group(1), int(m.group(2) or 0), cur))
            elif cmd in ("bodystart", "bodyend"):
                # inside the body of loop K
                cur = []
                fn["hints"].append((cmd, int(arg), 0, cur))
            elif cmd == "rewrite":
                a, b = arg.split("==>", 1)
                fn["rewrites"].append((a.strip(), b.strip(), reason))
            else:
                raise ValueError("%s:%d: unknown command %s" % (self.file, n, cmd))


class Report:
    def __init__(self):
        self.ops = []          # (module, what, detail, reason)
        self.drift = {}        # module::fn -> list of reasons
        self.unspecified = []  # module::fn without a contract entry
        self.missing = []      # contract entries whose function is gone
        self.functions = []    # module::fn woven
        self.contracted = []   # those whose bodies the verifier sees
        self.pins = {}         # opaque functions -> hash of their text
        self.loops = {}        # functions with loop annotations -> the headers of their loops
        self.closures = {}     # functions with closures -> their parameter lists, in order
        self.strings = {}      # functions with string literals -> those, in order


def widen(F, it, edits):
    """private items and fields become pub"""
    T = F.toks
    if it.kind in ("fn", "struct", "enum", "trait", "const", "type", "static") and T[it.sig].text != "pub":
        p = it.parent
        if p is None or (p.kind == "impl" and " as " not in p.key):
            edits.append((T[it.sig].s, T[it.sig].s, "pub "))
        elif p.kind == "fn":
            edits.append((T[it.sig].s, T[it.sig].s, "pub "))
    if it.kind == "struct":
        if it.body:
            i, end = it.body[0] + 1, it.body[1]
            fieldstart = True
            while i < end:
                if T[i].text == "#":
                    i = F.m[i + 1] + 1
                    continue
                if fieldstart and T[i].text != "pub":
                    edits.append((T[i].s, T[i].s, "pub "))
                fieldstart = False
                if T[i].text in rustlex.OPEN:
                    i = F.m[i] + 1
                    continue
                if T[i].text == "<":
                    i = F.skip_generics(i)
                    continue
                if T[i].text == ",":
                    fieldstart = True
                i += 1
        else:
            # tuple struct
            j = it.sig
            while T[j].text not in ("(", ";"):
                j = F.skip_generics(j) if T[j].text == "<" else j + 1
            if T[j].text == "(":
                i, end, st = j + 1, F.m[j], True
                while i < end:
                    if st and T[i].text != "pub":
                        edits.append((T[i].s, T[i].s, "pub "))
                    st = False
                    if T[i].text in rustlex.OPEN:
                        i = F.m[i] + 1
                        continue
                    if T[i].text == "<":
                        i = F.skip_generics(i)
                        continue
                    if T[i].text == ",":
                        st = True
                    i += 1


PRINTS = ("println", "print", "eprintln", "eprint")


def weave_module(spec, rep, root=None, force=(), probe=False):
    path = os.path.join(root or REPO, spec.src)
    src = open(path).read()
    if spec.expand:
        try:
            src = macros.expand(src)
            rep.ops.append((spec.module, "macros of the file expanded", spec.src, "tools/macros.py"))
        except rustlex.LexError:
            pass
    F = File(src)
    T = F.toks
    edits = []             # (start, end, text)
    mod = spec.module
    hoisted = []

    def op(what, detail, reason=""):
        rep.ops.append((mod, what, detail, reason))

    dropped = []
    rewritten = []         # source ranges replaced by a rewrite

    def drop(it, what, reason):
        edits.append((T[it.first].s, T[it.last].e, ""))
        dropped.append((it.first, it.last))
        op(what, it.key, reason)

    dropkeys = dict(spec.drops)
    seen = set()
    fns = []

    def visit(items):
        for it in items:
            if any("cfg(test)" in a.replace(" ", "") for a in it.attrs):
                drop(it, "test code left out", "")
                continue
            if it.key in dropkeys:
                seen.add(it.key)
                drop(it, "dropped", dropkeys[it.key])
                continue
            if spec.only and it.parent is None and it.kind != "use":
                if it.key not in spec.only:
                    edits.append((T[it.first].s, T[it.last].e, ""))
                    dropped.append((it.first, it.last))
                    continue
                seen.add("only " + it.key)
            if it.kind in ("mod",) and it.body is None:
                edits.append((T[it.first].s, T[it.last].e, ""))
                dropped.append((it.first, it.last))
                continue
            for a in it.attrs:
                if a.startswith("#[allow") or a.startswith("#[inline") or a.startswith("#[doc") or a.startswith("#[must_use"):
                    k = src.index(a, T[it.first].s)
                    edits.append((k, k + len(a), ""))
            widen(F, it, edits)
            for key, txt in spec.attrs:
                if key == it.kind + " " + it.key or (key == it.key and it.kind != "impl"):
                    edits.append((T[it.first].s, T[it.first].s, txt + "\n"))
                    seen.add("attr " + key)
            if it.key in spec.inside and it.kind in ("impl", "trait"):
                if ("inside", it.key) not in seen:
                    seen.add(("inside", it.key))
                    p = T[it.body[0]].e
                    edits.append((p, p, "\n" + "\n".join(spec.inside[it.key]) + "\n"))
            if it.kind == "fn":
                fns.append(it)
            visit(it.children)

    visit(F.items)

    def is_dropped(i):
        return any(a <= i <= b for a, b in dropped)

    blanks = []

    def blank(it):
        # the body of a function that was refused need not even pass the compiler
        if it.body and not (it.ret and any(T[k].text == "impl" for k in range(it.ret[0], it.ret[1] + 1))):
            blanks.append((T[it.body[0]].s, T[it.body[1]].e))

    for it in fns:
        name = mod + "::" + it.key
        sp = spec.fns.get(it.key)
        rep.functions.append(name)
        a0 = T[it.sig].s
        edits.append((a0, a0, "/*@F %s*/ " % name))
        e0 = T[it.last].e
        edits.append((e0, e0, "/*@E*/"))
        if sp is None:
            rep.unspecified.append(name)
            if name in force:
                edits.append((T[it.sig].s, T[it.sig].s, "#[verifier::external_body]\n"))
                blank(it)
            continue
        opaque = sp["opaque"] or name in force
        if name in force:
            blank(it)
        if opaque:
            rep.pins[name] = hashlib.sha256(" ".join(t.text for t in T[it.first:it.last + 1]).encode()).hexdigest()[:16]
        seen.add(("fn", it.key))
        drift = []
        attrs = list(sp["attrs"])
        if opaque:
            attrs.append("#[verifier::external_body]")
            op("opaque body", it.key, sp["reason"])
        if attrs:
            edits.append((T[it.sig].s, T[it.sig].s, "\n".join(attrs) + "\n"))
        if sp["ret"] and it.ret:
            edits.append((T[it.ret[0]].s, T[it.ret[0]].s, "(%s: " % sp["ret"]))
            edits.append((T[it.ret[1]].e, T[it.ret[1]].e, ")"))
        elif sp["ret"]:
            drift.append("no return type any more")
        if sp["spec"]:
            p = T[it.sigend].s
            edits.append((p, p, "\n" + "\n".join(sp["spec"]) + "\n"))
        if opaque or it.body is None:
            continue
        a, b = it.body
        rep.contracted.append(name)
        lits = [t.text for t in T[it.first:it.last + 1] if t.text.startswith(('"', 'r"', 'r#', 'b"'))]
        if lits:
            rep.strings[name] = lits
        cl = closures(T, a, b)
        if cl:
            rep.closures[name] = cl
        if probe:
            edits.append((T[a].e, T[a].e, "\nproof { assert(false); }\n"))
        if sp["start"]:
            edits.append((T[a].e, T[a].e, "\n" + "\n".join(sp["start"]) + "\n"))
        if sp["tail"]:
            # { B }  =>  { let vp_r = { B }; hints; vp_r }
            edits.append((T[a].e, T[a].e, "let vp_r = {"))
            edits.append((T[b].s, T[b].s, "};\n" + "\n".join(sp["tail"]) + "\nvp_r\n"))
        if sp["finish"]:
            edits.append((T[b].s, T[b].s, "\n" + "\n".join(sp["finish"]) + "\n"))
        if sp["loops"] and len(it.loops) != len([k for k in sp["loops"]]):
            drift.append("expected %d loops, found %d" % (len(sp["loops"]), len(it.loops)))
        if sp["loops"]:
            rep.loops[name] = [" ".join(t.text for t in T[i:ob]) for _, i, ob, _ in it.loops]
        for k, (itername, lines) in sp["loops"].items():
            if k >= len(it.loops):
                drift.append("loop %d is gone" % k)
                continue
            kind, kw, ob, inkw = it.loops[k]
            if k in sp["forwhile"]:
                nm = sp["forwhile"][k]
                if kind != "for":
                    drift.append("loop %d is not a for loop any more" % k)
                else:
                    # for P in E { B }  =>  let mut nm = E; while let Some(P) = nm.next() { B }
                    edits.append((T[kw].s, T[inkw].e, "let mut %s =" % nm))
                    edits.append((T[ob - 1].e, T[ob - 1].e, "; while let Some(%s) = %s.next()" % (src[T[kw + 1].s:T[inkw - 1].e], nm)))
                    op("for loop over an iterator written as while let", it.key, "the definition of for, for an expression that is an iterator already")
            elif itername:
                if kind != "for":
                    drift.append("loop %d is not a for loop any more" % k)
                else:
                    edits.append((T[inkw].e, T[inkw].e, " %s:" % itername))
            edits.append((T[ob].s, T[ob].s, "\n" + "\n".join(lines) + "\n"))
        for cmd, pat, k, lines in sp["hints"]:
            text = "\n" + "\n".join(lines) + "\n"
            if cmd in ("bodystart", "bodyend"):
                if pat >= len(it.loops):
                    drift.append("loop %d is gone" % pat)
                    continue
                ob = it.loops[pat][2]
                p = T[ob].e if cmd == "bodystart" else T[F.m[ob]].s
                edits.append((p, p, text))
                continue
            occ = [o for o in find_pattern(T, a + 1, b, pat)]
            if k >= len(occ):
                drift.append("anchor %r is gone" % pat)
                continue
            f, l = occ[k]
            if cmd == "before":
                edits.append((T[f].s, T[f].s, text))
            else:
                edits.append((T[l].e, T[l].e, text))
        for pat, repl, reason in sp["rewrites"]:
            occ = find_bound(T, it.sig, b + 1, pat)
            if not occ:
                drift.append("rewrite pattern %r is gone" % pat)
            for f, l, env in occ:
                text = repl
                for x, (i, j) in env.items():
                    text = text.replace("$" + x, src[T[i].s:T[j].e])
                edits.append((T[f].s, T[l].e, text))
                rewritten.append((T[f].s, T[l].e))
                op("rewrite in %s" % it.key, "%s  =>  %s" % (pat, repl), reason)
        # fn f(mut self, ..) { B }  =>  fn f(self, ..) { let mut vp_self = self; B[vp_self/self] }
        j = it.sig
        while j < a and T[j].text != "(":
            j = F.skip_generics(j) if T[j].text == "<" else j + 1
        if T[j].text == "(" and T[j + 1].text == "mut" and T[j + 2].text == "self":
            edits.append((T[j + 1].s, T[j + 1].e, ""))
            edits.append((T[a].e, T[a].e, " let mut vp_self = self; "))
            taken = [(T[f].s, T[l].e) for pat, _, _ in sp["rewrites"] for f, l in find_pattern(T, it.sig, b + 1, pat)]
            for k in range(a + 1, b):
                if T[k].text == "self" and not any(x <= T[k].s and T[k].e <= y for x, y in taken):
                    edits.append((T[k].s, T[k].e, "vp_self"))
            op("receiver mut self written as a mutable local", it.key, "Verus does not take mut self")
        if drift:
            rep.drift[name] = drift

    for key, sp in spec.fns.items():
        if ("fn", key) not in seen:
            rep.missing.append(mod + "::" + key)
    for key in spec.only:
        if "only " + key not in seen:
            rep.missing.append(mod + "::" + key)
    for key in spec.inside:
        if ("inside", key) not in seen:
            rep.missing.append(mod + "::" + key)

    # diagnostics output and assertions, everywhere
    i = 0
    while i < len(T) - 2:
        if T[i].kind == "id" and T[i + 1].text == "!" and T[i + 2].text in rustlex.OPEN and not is_dropped(i) \
                and not any(x <= T[i].s and T[i + 2].e <= y for x, y in rewritten):
            o, c = i + 2, F.m[i + 2]
            if T[i].text in PRINTS:
                # the arguments that compute something are still evaluated
                cuts = []
                j = o + 1
                while j < c:
                    if T[j].text == ",":
                        cuts.append(j)
                    j = F.m[j] + 1 if T[j].text in rustlex.OPEN else j + 1
                args = [(x + 1, y - 1) for x, y in zip(cuts, cuts[1:] + [c]) if x + 1 <= y - 1]
                keep = [(x, y) for x, y in args if any(T[k].text in ("(", "[", "+", "-", "*", "/", "%", "<<", "!") for k in range(x, y + 1))
                        and not (T[x + 1].text == "=" if y > x else False)]
                pos = T[i].s
                last = i
                for n, (x, y) in enumerate(keep):
                    edits.append((pos, T[x].s, ("{ " if n == 0 else "); ") + "let _ = &("))
                    dropped.append((last, x - 1))
                    pos = T[y].e
                    last = y + 1
                edits.append((pos, T[c].e, "); }" if keep else "()"))
                dropped.append((last, c))
                op("diagnostic output removed", F.compact(i, c)[:70], "arguments that compute something are kept" if keep else "")
                i = c if not keep else o
            elif T[i].text == "assert":
                # assert!(c, ...) -> an obligation on c
                j = o + 1
                while j < c and T[j].text != ",":
                    j = F.m[j] + 1 if T[j].text in rustlex.OPEN else j + 1
                edits.append((T[i].s, T[o].e, "crate::rt::rt_assert("))
                edits.append((T[j].s, T[c].e, ")"))
                if j < c:
                    dropped.append((j, c - 1))
            elif T[i].text in ("assert_eq", "assert_ne"):
                j = o + 1
                while T[j].text != ",":
                    j = F.m[j] + 1 if T[j].text in rustlex.OPEN else j + 1
                k = j + 1
                while k < c and T[k].text != ",":
                    k = F.m[k] + 1 if T[k].text in rustlex.OPEN else k + 1
                edits.append((T[i].s, T[o].e, "crate::rt::rt_assert(("))
                edits.append((T[j].s, T[j].e, ") %s (" % ("==" if T[i].text == "assert_eq" else "!=")))
                edits.append((T[k].s, T[c].e, "))"))
                if k < c:
                    dropped.append((k, c - 1))
            elif T[i].text == "format":
                # the text is not specified; formatting an argument that is not computed does nothing else
                j, cut = o + 1, o + 1
                while j < c and T[j].text != ",":
                    j = F.m[j] + 1 if T[j].text in rustlex.OPEN else j + 1
                if not any(T[k].text in ("(", "+", "-", "*", "/", "%", "<<", "!", "{") and not (T[k].text == "(" and T[k - 1].text == "len" and T[k + 1].text == ")") for k in range(j, c)):
                    edits.append((T[i].s, T[c].e, "crate::rt::some_string()"))
                    dropped.append((i, c))
                    op("text that is not specified", F.compact(i, c)[:70], "")
                    i = c
            elif T[i].text in ("unreachable", "panic", "todo", "unimplemented"):
                edits.append((T[i].s, T[c].e, "crate::rt::rt_unreachable()"))
                dropped.append((i, c))
                i = c
        i += 1

    # |_| is |vp_any|
    for i in range(1, len(T) - 1):
        if T[i].text == "_" and T[i - 1].text == "|" and T[i + 1].text == "|" and T[i - 2].text in ("(", ",", "=", "move") and not is_dropped(i) \
                and not any(x <= T[i].s and T[i].e <= y for x, y in rewritten):
            edits.append((T[i].s, T[i].e, "vp_any"))

    # patterns that are texts: "a" | "b" =>  becomes a guard
    for i in range(1, len(T) - 1):
        if T[i].kind == "str" and T[i + 1].text == "=>" and not is_dropped(i) and not any(x <= T[i].s and T[i].e <= y for x, y in rewritten):
            j = i
            while T[j - 1].text == "|" and T[j - 2].kind == "str":
                j -= 2
            lits = [T[k].text for k in range(j, i + 1, 2)]
            edits.append((T[j].s, T[i].e, "vp_text if " + " || ".join("crate::text::eq(vp_text, %s)" % l for l in lits)))
            op("pattern that is a text written as a guard", " | ".join(lits), "")

    for pat, repl, reason in spec.grewrites:
        for f, l in find_pattern(T, 0, len(T), pat):
            if is_dropped(f):
                continue
            edits.append((T[f].s, T[l].e, repl))
            op("rewrite", "%s  =>  %s" % (pat, repl), reason)

    # items local to a function go in front of the outermost item that holds them
    for it in fns:
        for ch in it.children:
            if ch.local and not is_dropped(ch.first):
                hoisted.append((it, ch))
    if blanks:
        kept = [(T[c.first].s, T[c.last].e) for _, c in hoisted]
        inside = lambda s, e, r: r[0] <= s and e <= r[1] and not s == e == r[0] and not s == e == r[1]
        edits[:] = [e for e in edits if e[2].startswith("/*@") or not any(inside(e[0], e[1], b) for b in blanks)
                    or any(inside(e[0], e[1], k) and not any(inside(b[0], b[1], k) for b in blanks if inside(e[0], e[1], b)) for k in kept)]
        edits += [(a, b, "{ unimplemented!() }") for a, b in blanks]
    # apply: edits inside a hoisted range travel with it
    edits.sort(key=lambda e: (e[0], e[1], 0 if e[2].startswith("#[") else 1))

    def apply(a, b, skip=()):
        out, pos, gone = [], a, None
        for (s, e, txt) in edits:
            if s < a or e > b:
                continue
            sk = next(((x, y) for x, y in skip if x <= s and e <= y), None)
            if sk:
                continue
            if s < pos:
                if e <= pos:
                    if s == e and txt.startswith("\n") and gone and gone[0] < s:
                        raise rustlex.LexError("a specification of %s falls inside a rewrite: %r" % (mod, txt[:60]))
                    continue      # inside something removed already
                raise rustlex.LexError("overlapping edits at %d in %s: %r" % (s, mod, txt[:60]))
            # skipped ranges in between
            for x, y in skip:
                if pos <= x and y <= s:
                    out.append(src[pos:x])
                    pos = y
            out.append(src[pos:s])
            out.append(txt)
            pos = e
            if e > s:
                gone = (s, e) if txt else None
        for x, y in skip:
            if pos <= x and y <= b:
                out.append(src[pos:x])
                pos = y
        out.append(src[pos:b])
        return "".join(out)

    ranges = sorted((T[c.first].s, T[c.last].e) for _, c in hoisted)
    body = apply(0, len(src), ranges)
    for (f, c) in hoisted:
        inner = [r for r in ranges if r[0] > T[c.first].s and r[1] < T[c.last].e]
        body = body + "\n" + apply(T[c.first].s, T[c.last].e, inner) + "\n"
        op("local item moved to module level", c.key, "")
    return body


HEADER = """#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_macros, non_camel_case_types, unused_parens, unused_must_use, unused_braces, unused_unsafe)]
"""


def closures(T, a, b):
    """the parameter lists of the closures between two tokens"""
    out, i = [], a
    while i <= b:
        t = T[i].text
        if t in ("|", "||") and T[i - 1].text in ("(", ",", "=", "{", ";", "=>", "move", "return", "&&", "||", "[", ":"):
            j = i
            if t == "|":
                j += 1
                while j <= b and T[j].text != "|":
                    j += 1
            out.append(" ".join(x.text for x in T[i:j + 1]))
            i = j
        i += 1
    return out


def weave(root=None, only=None, force=(), probe=False):
    rep = Report()
    specs = [Spec(os.path.join(CONTRACTS, f)) for f in sorted(os.listdir(CONTRACTS)) if f.endswith(".vspec")]
    if only:
        specs = [s for s in specs if s.module in only]
    tree = {}
    for s in specs:
        body = weave_module(s, rep, root, force, probe)
        text = ("use vstd::prelude::*;\nuse crate::rt::*;\nverus! {\n" + "\n".join(s.top) + "\n//@@ %s from %s\n" % (s.module, s.src)
                + body + "\n//@@ end\n" + "\n".join(s.bottom) + "\n} // verus!\n")
        node = tree
        parts = s.module.split("::")
        for p in parts:
            node = node.setdefault(p, {})
        node[""] = text

    def emit(node):
        out = node.get("", "")
        for k in sorted(k for k in node if k):
            out += "pub mod %s {\n%s\n}\n" % (k, emit(node[k]))
        return out

    pre = ""
    for f in sorted(os.listdir(CONTRACTS)):
        if f.endswith(".rs"):
            pre += "pub mod %s {\n%s\n}\n" % (f[:-3], open(os.path.join(CONTRACTS, f)).read())
    return HEADER + pre + emit(tree), rep


if __name__ == "__main__":
    only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    text, rep = weave(None, only)
    open(sys.argv[1], "w").write(text)
    for k in ("drift", "unspecified", "missing"):
        print(k, getattr(rep, k))
