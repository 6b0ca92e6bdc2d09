"""Small Rust tokenizer and item finder used to extract functions of /repo mechanically.

Tokens keep the white space that precedes them (comments dropped, line breaks kept), so that extracted
text is the text of the source minus comments and minus what a unit states that it rewrites.
"""
import re

class Lost(Exception):
    """An anchor a unit relies on is not in the source (renamed, removed, restructured)."""

class Tok:
    __slots__ = ("k", "s", "ws", "line")
    def __init__(self, k, s, ws, line):
        self.k, self.s, self.ws, self.line = k, s, ws, line
    def __repr__(self):
        return self.s

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
RAW = re.compile(r'(?:b|c)?r(#*)"')
PUNCT3 = ("<<=", ">>=", "...", "..=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..")

def tokenize(src):
    toks, i, n, ws, line = [], 0, len(src), "", 1
    def add(k, s):
        nonlocal ws, line
        toks.append(Tok(k, s, ws, line)); ws = ""
        line += s.count("\n")
    while i < n:
        c = src[i]
        if c.isspace():
            ws += c
            if c == "\n": line += 1
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); j = n if j < 0 else j
            i = j; ws += " "; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            nl = src.count("\n", i, j); line += nl; ws += "\n" * nl + " "; i = j; continue
        m = RAW.match(src, i)
        if m:
            end = '"' + m.group(1); j = src.index(end, m.end()) + len(end)
            add("str", src[i:j]); i = j; continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (2 if c != '"' else 1)
            while src[j] != '"': j += 2 if src[j] == "\\" else 1
            add("str", src[i:j + 1]); i = j + 1; continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            q = i + (1 if c == "b" else 0)
            if src[q + 1] == "\\":
                j = q + 3
                while src[j] != "'": j += 1
                add("chr", src[i:j + 1]); i = j + 1; continue
            if q + 2 < n and src[q + 2] == "'":
                add("chr", src[i:q + 3]); i = q + 3; continue
            m = IDENT.match(src, q + 1)
            add("life", src[i:m.end()]); i = m.end(); continue
        m = IDENT.match(src, i)
        if m: add("id", m.group()); i = m.end(); continue
        m = NUM.match(src, i)
        if m:
            s = m.group()
            add("num", s); i = m.end(); continue
        for p in PUNCT3 + PUNCT2:
            if src.startswith(p, i): add("p", p); i += len(p); break
        else:
            add("p", c); i += 1
    return toks

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}

def close(toks, i):
    """index of the delimiter that closes toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.s in OPEN: d += 1
            elif t.s in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost("unbalanced")

def text(toks):
    return "".join(t.ws + t.s for t in toks)

def flat(toks):
    return " ".join(t.s for t in toks)

def t_same(a, b):
    return a.s == b.s

def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "#" and i + 1 < len(toks) and (toks[i + 1].s == "[" or (toks[i + 1].s == "!" and i + 2 < len(toks) and toks[i + 2].s == "[")):
            j = i + 1 if toks[i + 1].s == "[" else i + 2
            j = close(toks, j)
            if j + 1 < len(toks): toks[j + 1].ws = toks[i].ws + toks[j + 1].ws
            i = j + 1; continue
        out.append(toks[i]); i += 1
    return out

def match_at(pat, toks, i):
    """match pattern tokens (with metavariables $x = balanced non-empty run) at i; returns (end, env) or None"""
    env = {}
    def go(pi, ti):
        while pi < len(pat):
            p = pat[pi]
            if p.s == "$":
                name = pat[pi + 1].s
                nxt = pi + 2
                tj = ti
                while True:
                    if nxt < len(pat) and tj > ti or nxt >= len(pat) and tj > ti:
                        save = dict(env); env[name] = toks[ti:tj]
                        e = go(nxt, tj)
                        if e is not None: return e
                        env.clear(); env.update(save)
                    if tj >= len(toks): return None
                    t = toks[tj]
                    if t.k == "p" and t.s in OPEN: tj = close(toks, tj) + 1
                    elif t.k == "p" and t.s in CLOSE: return None
                    elif t.k == "p" and t.s == ";" and not name[0].isupper(): return None   # $X (capital) may span statements
                    else: tj += 1
            if ti >= len(toks) or toks[ti].s != p.s: return None
            pi += 1; ti += 1
        return ti
    e = go(0, i)
    return None if e is None else (e, env)

def rewrite(toks, pat, rep, count=None):
    """token-level rewriting; returns (tokens, number of replacements). `$x` are metavariables."""
    p = tokenize(pat); r = tokenize(rep)
    out, i, n = [], 0, 0
    while i < len(toks):
        m = match_at(p, toks, i) if (count is None or n < count) else None
        if m:
            e, env = m
            new, j = [], 0
            while j < len(r):
                if r[j].s == "$":
                    sub = [Tok(t.k, t.s, t.ws, t.line) for t in env[r[j + 1].s]]
                    if sub: sub[0].ws = r[j].ws
                    new += sub; j += 2
                else:
                    new.append(Tok(r[j].k, r[j].s, r[j].ws, toks[i].line)); j += 1
            if new: new[0].ws = toks[i].ws
            out += new; i = e; n += 1
        else:
            out.append(toks[i]); i += 1
    return out, n

class Source:
    def __init__(self, path):
        self.path = path
        with open(path, encoding="utf-8") as f: self.raw = f.read()
        self.toks = tokenize(self.raw)
        self._index()

    def _index(self):
        """items: name -> (kind, start, end); functions inside impls as Type::name (trait impls as <Trait>Type::name)"""
        self.items = {}
        self._scan(0, len(self.toks), "")

    def _scan(self, i, end, prefix):
        T = self.toks
        start = None
        while i < end:
            t = T[i]
            if start is None: start = i
            if t.s == "#" and T[i + 1].s in ("[", "!"):
                j = i + 1 if T[i + 1].s == "[" else i + 2
                attr = flat(T[j:close(T, j) + 1])
                i = close(T, j) + 1
                if "cfg ( test )" in attr:  # skip the item under it
                    while T[i].s not in ("{", ";"): i += 1
                    i = close(T, i) + 1 if T[i].s == "{" else i + 1
                    start = None
                continue
            if t.s == "pub":
                i += 1
                if T[i].s == "(" : i = close(T, i) + 1
                continue
            if t.s in ("async", "unsafe", "extern", "default") and t.k == "id": i += 1; continue
            if t.s == "const" and T[i + 1].s in ("fn", "unsafe", "async"): i += 1; continue
            if t.s == "fn":
                name = T[i + 1].s
                j = i
                while T[j].s not in ("{", ";"):
                    j = close(T, j) + 1 if T[j].s in ("(", "[") else j + 1
                e = close(T, j) + 1 if T[j].s == "{" else j + 1
                self.items.setdefault(prefix + name, ("fn", start, e)); i = e; start = None; continue
            if t.s in ("struct", "enum", "union", "trait", "type", "static", "const", "use", "mod", "macro_rules"):
                name = T[i + 1].s if t.s != "macro_rules" else T[i + 2].s
                j = i
                while T[j].s not in ("{", ";"):
                    j = close(T, j) + 1 if T[j].s in ("(", "[") else j + 1
                if t.s in ("type", "static", "const", "use"):
                    while T[j].s != ";":
                        j = close(T, j) + 1 if T[j].s in OPEN else j + 1
                e = close(T, j) + 1 if T[j].s == "{" else j + 1
                self.items.setdefault(prefix + name, (t.s, start, e))
                if t.s == "trait" and T[j].s == "{": self._scan(j + 1, e - 1, prefix + name + "::")
                if t.s == "mod" and T[j].s == "{": self._scan(j + 1, e - 1, prefix + name + "::")
                i = e; start = None; continue
            if t.s == "impl":
                j = i + 1
                if T[j].s == "<":
                    d = 0
                    while True:
                        if T[j].s == "<": d += 1
                        elif T[j].s == ">": d -= 1
                        elif T[j].s == ">>": d -= 2
                        j += 1
                        if d <= 0: break
                h0 = j
                while T[j].s != "{":
                    j = close(T, j) + 1 if T[j].s in ("(", "[") else j + 1
                head = T[h0:j]
                e = close(T, j) + 1
                names, trait, d = [], None, 0
                cur = None
                for h in head:
                    if h.s == "<": d += 1
                    elif h.s == ">": d -= 1
                    elif h.s == ">>": d -= 2
                    elif d == 0 and h.s == "for": trait = cur; cur = None
                    elif d == 0 and h.s == "where": break
                    elif d == 0 and h.k == "id": cur = h.s
                key = (f"<{trait}>" if trait else "") + (cur or "?")
                self.items.setdefault(prefix + "impl " + key, ("impl", start, e))
                self._scan(j + 1, e - 1, prefix + key + "::")
                i = e; start = None; continue
            i += 1
            if t.s == ";" : start = None

    def get(self, name):
        if name not in self.items: raise Lost(f"{self.path}: no item `{name}`")
        k, a, b = self.items[name]
        return k, [Tok(t.k, t.s, t.ws, t.line) for t in self.toks[a:b]]

    def impl_header(self, typ):
        k, toks = self.get("impl " + typ)
        i = 0
        while toks[i].s != "{": i += 1
        return toks[:i]
