"""Expands the macro_rules! macros of a file at the places where the file invokes them as items: a macro with
one rule whose variables are identifiers, with repetitions, which is what src/codec.rs has.  Whatever else it
meets it refuses."""
import rustlex
from rustlex import LexError

CLOSE = {"(": ")", "[": "]", "{": "}"}


def _match(T):
    m, st = {}, []
    for i, t in enumerate(T):
        if t in CLOSE:
            st.append(i)
        elif t in CLOSE.values():
            j = st.pop()
            m[j] = i
    return m


def _tree(T):
    """[token | ('var', name, frag) | ('rep', [...], sep, op)]"""
    out, i, m = [], 0, _match(T)
    while i < len(T):
        if T[i] == "$" and i + 1 < len(T):
            if T[i + 1] == "(":
                e = m[i + 1]
                inner = _tree(T[i + 2:e])
                k = e + 1
                if T[k] in ("*", "+"):
                    sep, op, k = None, T[k], k + 1
                else:
                    sep, op, k = T[k], T[k + 1], k + 2
                if op not in ("*", "+"):
                    raise LexError("repetition %r" % op)
                out.append(("rep", inner, sep, op))
                i = k
                continue
            if i + 3 < len(T) and T[i + 2] == ":" and T[i + 3] in ("ident", "path", "ty", "expr", "literal", "tt", "pat", "stmt", "block", "item", "lifetime", "vis", "meta"):
                out.append(("var", T[i + 1], T[i + 3]))
                i += 4
                continue
            out.append(("var", T[i + 1], None))
            i += 2
            continue
        out.append(T[i])
        i += 1
    return out


def _names(tree):
    for x in tree:
        if isinstance(x, tuple):
            if x[0] == "var":
                yield x[1]
            else:
                yield from _names(x[1])


def _bind(tree, T, i, env):
    """matches T[i:] against the tree, returns the position after it, or None"""
    for n, x in enumerate(tree):
        if isinstance(x, str):
            if i >= len(T) or T[i] != x:
                return None
            i += 1
        elif x[0] == "var":
            if x[2] != "ident":
                raise LexError("a macro variable that is not an identifier")
            if i >= len(T) or not (T[i][0].isalpha() or T[i][0] == "_"):
                return None
            env[x[1]] = T[i]
            i += 1
        else:
            turns = []
            first = True
            while True:
                j = i
                if not first and x[2] is not None:
                    if j >= len(T) or T[j] != x[2]:
                        break
                    j += 1
                e = {}
                j = _bind(x[1], T, j, e) if j < len(T) else None
                if j is None:
                    break
                turns.append(e)
                i, first = j, False
            for v in _names(x[1]):
                env[v] = [t[v] for t in turns]
    return i


def _emit(tree, env, out):
    i = 0
    for x in tree:
        if isinstance(x, str):
            out.append(x)
        elif x[0] == "var":
            if x[1] not in env:
                out += ["$", x[1]]
            elif isinstance(env[x[1]], list):
                raise LexError("variable %s without a repetition" % x[1])
            else:
                out.append(env[x[1]])
        else:
            vs = [v for v in _names(x[1]) if isinstance(env.get(v), list)]
            if not vs or len({len(env[v]) for v in vs}) != 1:
                raise LexError("repetition without variables")
            for k in range(len(env[vs[0]])):
                if k and x[2] is not None:
                    out.append(x[2])
                e = dict(env)
                for v in vs:
                    e[v] = env[v][k]
                _emit(x[1], e, out)


def expand(src):
    """the text with macro definitions removed and their invocations as items expanded"""
    toks = rustlex.lex(src)
    rules = {}
    for _ in range(20):
        toks = rustlex.lex(src)
        T = [t.text for t in toks]
        m = _match(T)
        edits = []
        depth = 0
        i = 0
        while i < len(T):
            if T[i] in CLOSE and not (i >= 2 and T[i - 1] == "!"):
                i = m[i] + 1
                continue
            if T[i] == "macro_rules" and T[i + 1] == "!":
                o = i + 3
                c = m[o]
                name = T[i + 2]
                if T[o + 1] not in CLOSE:
                    raise LexError("macro %s" % name)
                pe = m[o + 1]
                if T[pe + 1] != "=>" or T[pe + 2] not in CLOSE:
                    raise LexError("macro %s" % name)
                be = m[pe + 2]
                rest = T[be + 1:c]
                if rest not in ([], [";"]):
                    raise LexError("macro %s has several rules" % name)
                rules[name] = (_tree(T[o + 2:pe]), _tree(T[pe + 3:be]))
                e = c + 1
                if T[o] != "{" and e < len(T) and T[e] == ";":
                    e += 1
                edits.append((toks[i].s, toks[e - 1].e, ""))
                i = e
                continue
            if T[i] in rules and i + 2 < len(T) and T[i + 1] == "!" and T[i + 2] in CLOSE:
                o = i + 2
                c = m[o]
                env = {}
                end = _bind(rules[T[i]][0], T[o + 1:c], 0, env)
                if end != c - o - 1:
                    raise LexError("%s! does not match its rule" % T[i])
                out = []
                _emit(rules[T[i]][1], env, out)
                e = c + 1
                if e < len(T) and T[e] == ";":
                    e += 1
                edits.append((toks[i].s, toks[e - 1].e, " ".join(out)))
                i = e
                continue
            i += 1
        if not edits:
            break
        for s, e, txt in reversed(edits):
            src = src[:s] + txt + src[e:]
    # stringify!(x)
    toks = rustlex.lex(src)
    edits = []
    for i in range(len(toks) - 4):
        if toks[i].text == "stringify" and toks[i + 1].text == "!" and toks[i + 2].text == "(" and toks[i + 4].text == ")":
            edits.append((toks[i].s, toks[i + 4].e, '"%s"' % toks[i + 3].text))
    for s, e, txt in reversed(edits):
        src = src[:s] + txt + src[e:]
    return src


if __name__ == "__main__":
    import sys
    print(expand(open(sys.argv[1]).read()))
