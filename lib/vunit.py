"""Assembles one Verus file from functions of /repo (extracted on every run) and runs Verus on it."""
import json, os, re, subprocess, time
from rustsrc import Source, Tok, Lost, tokenize, rewrite, strip_attrs, text, flat, close, OPEN, CLOSE

REPO = os.environ.get("VX_REPO", "/repo")
CORE = REPO + "/akasa-core/src/"

FAIL_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
             "assertion failed", "possible arithmetic underflow/overflow", "possible division by zero",
             "possible bit shift underflow/overflow", "decreases not satisfied", "loop ensures not satisfied",
             "possible truncation", "unable to prove", "could not prove", "possible index out of bounds", "type invariant")
FAIL_MSGS_RE = re.compile("|".join(re.escape(m) for m in FAIL_MSGS), re.I)

class Fn:
    def __init__(self, name, spec="", ret=None, loops=(), subs=(), pre="", trusted=False, rename=None, sig_subs=(), attrs="", post=None, recommends=None, ret_post=False):
        self.ret_post = ret_post  # the ghost code of `post` also before every `return`
        self.name, self.spec, self.ret, self.loops, self.subs, self.pre = name, spec, ret, list(loops), list(subs), pre
        self.trusted, self.rename, self.sig_subs, self.attrs, self.post = trusted, rename, list(sig_subs), attrs, post

class L:
    """Contract of one loop: kind (for/while/loop) must match the source, otherwise the anchor is lost."""
    def __init__(self, kind, inv, body_pre="", before="", body_post="", iter=None, after="", cont=""):
        self.kind, self.inv, self.body_pre, self.before, self.body_post, self.iter, self.after = kind, inv, body_pre, before, body_post, iter, after
        self.cont = cont  # ghost code before every `continue` of this loop

def make_pub(toks):
    """struct/enum item: every field and the item itself public (visibility only)"""
    k = next(j for j, t in enumerate(toks) if t.s in ("struct", "enum", "const", "type", "static", "trait", "union"))
    if not any(t.s == "pub" for t in toks[:k]):
        toks.insert(k, Tok("id", "pub", toks[k].ws, toks[k].line)); toks[k + 1].ws = " "; k += 1
    if toks[k].s != "struct": return toks
    b = k
    while b < len(toks) and toks[b].s not in ("{", "(", ";"): b += 1
    if b >= len(toks) or toks[b].s == ";": return toks
    e = close(toks, b); out = toks[:b + 1]; d = 0; start = True; i = b + 1
    while i < e:
        t = toks[i]
        if start:
            if t.s == "pub": pass
            else: out.append(Tok("id", "pub", t.ws, t.line)); t.ws = " "
            start = False
        if t.s in ("(", "[", "{", "<"): d += 1
        elif t.s in (")", "]", "}", ">"): d -= 1
        elif t.s == ">>": d -= 2
        elif t.s == "," and d == 0: start = True
        out.append(t); i += 1
    return out + toks[e:]

def field_names(toks):
    """field names of a struct item whose fields are all `pub`"""
    b = next(j for j, t in enumerate(toks) if t.s == "{"); out = []; d = 0
    for j in range(b + 1, close(toks, b)):
        t = toks[j]
        if d == 0 and t.s == "pub": out.append(toks[j + 1].s)
        if t.s in ("(", "[", "{", "<"): d += 1
        elif t.s in (")", "]", "}", ">"): d -= 1
        elif t.s == ">>": d -= 2
    return out

def drop_logs(toks):
    out, i, n = [], 0, 0
    while i < len(toks):
        if (toks[i].s == "log" and i + 4 < len(toks) and toks[i + 1].s == "::" and toks[i + 3].s == "!"):
            e = close(toks, i + 4) + 1
            if e < len(toks) and toks[e].s == ";": e += 1
            elif True:
                # in expression position (match arm): becomes a unit value
                out.append(Tok("p", "(", toks[i].ws, toks[i].line)); out.append(Tok("p", ")", "", toks[i].line))
            i = e; n += 1
            if i < len(toks): toks[i].ws = "\n" * toks[i].ws.count("\n") + " "
            continue
        out.append(toks[i]); i += 1
    return out, n

def _cond_end(toks, i):
    """index of the `{` that opens the block of the `if` whose condition starts at i, and the places of the top-level `&&`"""
    ands = []
    while i < len(toks):
        t = toks[i]
        if t.s == "{": return i, ands
        if t.s in ("(", "["): i = close(toks, i) + 1; continue
        if t.s == "&&": ands.append(i); i += 1; continue
        if t.s == "match":
            j, _ = _cond_end(toks, i + 1); i = close(toks, j) + 1; continue
        if t.s == "if":
            while True:
                j, _ = _cond_end(toks, i + 1); i = close(toks, j) + 1
                if i < len(toks) and toks[i].s == "else":
                    if toks[i + 1].s == "if": i += 1; continue
                    i = close(toks, i + 1) + 1
                break
            continue
        i += 1
    raise Lost("condition without a block")

def _if_end(toks, i):
    """end (exclusive) of the whole if expression starting at token i"""
    j, _ = _cond_end(toks, i + 1); e = close(toks, j) + 1
    if e < len(toks) and toks[e].s == "else":
        return _if_end(toks, e + 1) if toks[e + 1].s == "if" else close(toks, e + 1) + 1
    return e

def let_chains(toks):
    """`if a && let p = e && b { x } else { y }`  =>  nested ifs (y repeated)"""
    i = n = 0
    while i < len(toks):
        if toks[i].s != "if" or toks[i].k != "id": i += 1; continue
        j, ands = _cond_end(toks, i + 1)
        bounds = [i] + ands + [j]
        parts = [toks[a + 1:b] for a, b in zip(bounds, bounds[1:])]
        if len(parts) == 1 or not any(p and p[0].s == "let" for p in parts): i += 1; continue
        groups = []
        for p in parts:
            if p[0].s == "let" or not groups or groups[-1][0].s == "let": groups.append(list(p))
            else: groups[-1] += [Tok("p", "&&", " ", p[0].line)] + list(p)
        e = close(toks, j) + 1; end = _if_end(toks, i)
        els = toks[e + 1:end] if e < end else []
        if els and els[0].s == "if": els = [Tok("p", "{", " ", els[0].line)] + els + [Tok("p", "}", " ", els[-1].line)]
        cp = lambda ts: [Tok(t.k, t.s, t.ws, t.line) for t in ts]
        mk = lambda k, x: Tok(k, x, " ", toks[i].line)
        out = toks[j:e]
        for g in reversed(groups):
            one = [mk("id", "if")] + cp(g) + (out if out[0].s == "{" else [mk("p", "{")] + out + [mk("p", "}")])
            if els: one += [mk("id", "else")] + cp(els)
            out = one
        out[0].ws = toks[i].ws
        toks = toks[:i] + out + toks[end:]; n += 1
        i += 1
    return toks, n

def apply_subs(toks, subs, what, dropped):
    for s in subs:
        pat, rep = s[0], s[1]
        mode = s[2] if len(s) > 2 else "opt"     # "opt": may be absent, "req": at least once, int: exactly that many
        toks, n = rewrite(toks, pat, rep)
        if mode == "req" and n == 0: raise Lost(f"{what}: `{pat}` not found")
        if isinstance(mode, int) and not isinstance(mode, bool) and n != mode: raise Lost(f"{what}: `{pat}` found {n} times, expected {mode}")
        if n: dropped.append(f"{what}: {pat}  =>  {rep or '(dropped)'}")
    return toks

GLOBAL_SUBS = [
    ("pub ( crate )", "pub"), ("pub ( super )", "pub"), ("pub(in $p)", "pub"),
    ("async fn", "fn"), (". await", ""),
    ("unreachable ! ( $x )", "vx_panic()"), ("unreachable ! ( )", "vx_panic()"),
    ("panic ! ( $x )", "vx_panic()"), ("panic ! ( )", "vx_panic()"),
    ("todo ! ( )", "vx_panic()"), ("unimplemented ! ( )", "vx_panic()"),
]
GLOBAL_NOTE = "comments, attributes, log::*! statements, async/.await and visibility qualifiers dropped; panicking macros become a call with precondition false"

HEADER = """#![feature(allocator_api)]
#![allow(unused, dead_code, non_snake_case, unused_parens, unused_braces, unreachable_code, non_camel_case_types)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false, { loop {} }
pub assume_specification<T>[ std::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
"""
FOOTER = "\n} // verus!\nfn main() {}\n"

def lit_bytes(tok):
    """bytes of a string or byte-string literal token, None if not one"""
    m = re.match(r'(?s)^(b?)"(.*)"$', tok.s)
    if m:
        b = m.group(2)
        out, i = bytearray(), 0
        while i < len(b):
            if b[i] == "\\":
                c = b[i + 1]
                if c == "x": out.append(int(b[i + 2:i + 4], 16)); i += 4; continue
                if c in "nrt0\\\"'": out.append({"n": 10, "r": 13, "t": 9, "0": 0}.get(c, ord(c))); i += 2; continue
                return None
            out += b[i].encode(); i += 1
        return bool(m.group(1)), bytes(out)
    return None

def ghost_seq(data): return "Seq::<u8>::empty()" + "".join(f".push({x}u8)" for x in data)

def lit_toks(data, ws, line, byte):
    inner = ", ".join(f"{x}u8" for x in data); g = ghost_seq(data)
    t = tokenize(f"vx_bl(&[{inner}], Ghost({g}))" if byte else (f"vx_lit([{inner}], Ghost({g}))" if data else "vx_lit0()"))
    for x in t: x.line = line
    t[0].ws = ws
    return t

def expand_literals(toks, what):
    """string and byte-string literals become arrays; format!(..) with `{}` becomes a chain of concatenations"""
    out, i, n = [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.s == "format" and i + 2 < len(toks) and toks[i + 1].s == "!" and toks[i + 2].s == "(":
            e = close(toks, i + 2)
            args, cur, d = [], [], 0
            for x in toks[i + 3:e]:
                if x.k == "p" and x.s in OPEN: d += 1
                if x.k == "p" and x.s in CLOSE: d -= 1
                if d == 0 and x.s == ",": args.append(cur); cur = []
                else: cur.append(x)
            if cur: args.append(cur)
            l = lit_bytes(args[0][0]) if args and len(args[0]) == 1 else None
            if l is None: raise Lost(f"{what}: format! without a literal")
            pieces = l[1].decode().replace("{{", "\0").replace("}}", "\1").split("{")
            parts = [pieces[0]]; k = 1; chain = [("lit", pieces[0])]
            for pc in pieces[1:]:
                if "}" not in pc: raise Lost(f"{what}: format string")
                name, rest = pc.split("}", 1)
                if name == "":
                    if k >= len(args): raise Lost(f"{what}: format arguments")
                    chain.append(("arg", args[k])); k += 1
                elif re.match(r"^[A-Za-z_]\w*$", name): chain.append(("arg", tokenize(name)))
                else: raise Lost(f"{what}: format spec {{{name}}}")
                chain.append(("lit", rest))
            if k != len(args): raise Lost(f"{what}: format arguments")
            r = tokenize("vx_lit0()")
            for kind, v in chain:
                if kind == "lit":
                    if not v: continue
                    data = v.replace("\0", "{").replace("\1", "}").encode()
                    b = ", ".join(f"{x}u8" for x in data)
                    r += tokenize(f".vx_l([{b}], Ghost({ghost_seq(data)}))")
                else:
                    v, _ = expand_literals(v, what)
                    r += tokenize(".vx_a(&(") + v + tokenize("))")
            for x in r: x.line = t.line
            r[0].ws = t.ws; out += r; i = e + 1; n += 1; continue
        l = lit_bytes(t) if t.s and t.s[0] in 'b"' else None
        if l and not l[0] and i + 1 < len(toks) and toks[i + 1].s == "=>":
            # a string pattern becomes a guard
            r = tokenize("vx_p if vx_seq(vx_p, &") + lit_toks(l[1], "", t.line, False) + tokenize(")")
            for x in r: x.line = t.line
            r[0].ws = t.ws; out += r; i += 1; n += 1; continue
        if l: out += lit_toks(l[1], t.ws, t.line, l[0]); i += 1; n += 1; continue
        out.append(t); i += 1
    return out, n

class Unit:
    def __init__(self, name, flags=(), subs=(), uses="", literals=False):
        self.name, self.flags, self.subs, self.uses, self.literals = name, list(flags), list(subs), uses, literals
        self.parts, self.sources = [], {}
        self.rewrites, self.trusted_notes, self.fns = [], [], []
        self.depends = set()

    def src(self, rel):
        if rel not in self.sources: self.sources[rel] = Source(REPO + "/" + rel)
        return self.sources[rel]

    def raw(self, txt): self.parts.append(("raw", txt)); return self
    def item(self, rel, name, subs=(), attrs=""): self.parts.append(("item", rel, name, list(subs), attrs)); return self
    def frame(self, rel, name, pred, but=()):
        """spec predicate: two values of the struct agree in every field (as it is declared now) but those listed"""
        self.parts.append(("frame", rel, name, pred, list(but))); return self
    def fn(self, rel, fn): self.parts.append(("fn", rel, fn)); return self
    def impl(self, rel, typ, fns, header=None, extra=""): self.parts.append(("impl", rel, typ, fns, header, extra)); return self

    # -- generation -------------------------------------------------------------------------------
    def _common(self, toks, subs, what):
        toks = strip_attrs(toks)
        toks, n = drop_logs(toks)
        toks = apply_subs(toks, GLOBAL_SUBS, what, [])
        toks, n = let_chains(toks)
        if n: self.rewrites.append(f"{what}: let chains written as nested ifs (the else block repeated)")
        toks = apply_subs(toks, self.subs + list(subs), what, self.rewrites)
        if self.literals:
            toks, n = expand_literals(toks, what)
            if n: self.rewrites.append("string literals and format! written out as byte arrays and concatenations")
        return toks

    def _fn_text(self, rel, fn, qual, probe):
        k, toks = self.src(rel).get(qual)
        if k != "fn": raise Lost(f"{qual} is not a function")
        line0 = next(t.line for t in toks if t.s == "fn")
        toks = self._common(toks, fn.subs, qual)
        # signature / body
        i = next(j for j, t in enumerate(toks) if t.s == "fn")
        j = i
        while toks[j].s not in ("{", ";"):
            j = close(toks, j) + 1 if toks[j].s in ("(", "[") else j + 1
        if toks[j].s == ";": raise Lost(f"{qual}: no body")
        sig, body = toks[:j], toks[j:]
        if close(body, 0) != len(body) - 1: raise Lost(f"{qual}: body")
        sig = apply_subs(sig, fn.sig_subs, qual + " (signature)", self.rewrites)
        # where clause goes after the return type; verus wants  -> (r: T) where .. requires ..
        where = []
        d = 0
        for q, t in enumerate(sig):
            if t.k == "p" and t.s in OPEN: d += 1
            if t.k == "p" and t.s in CLOSE: d -= 1
            if d == 0 and t.s == "where": where = sig[q:]; sig = sig[:q]; break
        arrow = None; d = 0
        for q, t in enumerate(sig):
            if t.k == "p" and t.s in OPEN: d += 1
            if t.k == "p" and t.s in CLOSE: d -= 1
            if d == 0 and t.s == "->" : arrow = q
        if arrow is not None:
            rt = text(sig[arrow + 1:]).strip()
            sigt = text(sig[:arrow]) + f" -> ({fn.ret or 'vx_r'}: {rt})"
        else:
            sigt = text(sig)
        if fn.rename:
            sigt = re.sub(r"\bfn\s+%s\b" % re.escape(qual.split("::")[-1]), "fn " + fn.rename, sigt)
        out = sigt.strip() + " " + text(where) + "\n" + fn.spec.rstrip() + "\n"
        if fn.trusted:
            self.trusted_notes.append(f"{qual}: contract assumed, body not verified")
            return "#[verifier::external_body]\n" + out + "{ unimplemented!() }\n", line0
        # loops
        ins = {}   # token index in body -> text before it
        loops = []
        for q, t in enumerate(body):
            if t.k == "id" and t.s in ("for", "while", "loop"):
                if t.s == "for" and body[q + 1].s == "<": continue
                b = q + 1
                while body[b].s != "{":
                    b = close(body, b) + 1 if body[b].s in ("(", "[") else b + 1
                    if b >= len(body): raise Lost(f"{qual}: loop body")
                loops.append((t.s, q, b, close(body, b)))
        if len(loops) != len(fn.loops): raise Lost(f"{qual}: {len(loops)} loops, contract written for {len(fn.loops)}")
        for (kind, q, b, e), l in zip(loops, fn.loops):
            if kind != l.kind: raise Lost(f"{qual}: loop is `{kind}`, contract written for `{l.kind}`")
            if l.before: ins[q] = ins.get(q, "") + "\n" + l.before + "\n"
            ins[b] = ins.get(b, "") + "\n" + l.inv + "\n"
            if l.body_pre: ins[b + 1] = "\n" + l.body_pre + "\n" + ins.get(b + 1, "")
            if l.after: ins[e + 1] = "\n" + l.after + "\n" + ins.get(e + 1, "")
            if l.body_post: ins[e] = "\n" + l.body_post + "\n" + ins.get(e, "")
            if l.cont:
                for z in range(b, e):
                    if body[z].k == "id" and body[z].s == "continue" and max(x[2] for x in loops if x[2] <= z < x[3]) == b:
                        ins[z] = ins.get(z, "") + " { " + l.cont + " "; ins[z + 1] = " } " + ins.get(z + 1, "")
            if l.iter:
                p = q + 1; d = 0
                while not (body[p].s == "in" and d == 0):
                    if body[p].s in OPEN: d += 1
                    if body[p].s in CLOSE: d -= 1
                    p += 1
                ins[p + 1] = f" {l.iter}: " + ins.get(p + 1, "")
        s = []
        repl = {}
        if fn.post and fn.ret_post:
            for q, t in enumerate(body):
                if t.k == "id" and t.s == "return":
                    e = q + 1
                    while body[e].s not in (";", ",", "}"): e = close(body, e) + 1 if body[e].s in OPEN else e + 1
                    val = text(body[q + 1:e]).strip()
                    for z in range(q, e): repl[z] = ""
                    repl[q] = " { " + (f"let vx_tail = {val}; " if val else "") + fn.post + (" return vx_tail; }" if val else " return; }")
        for q, t in enumerate(body):
            s.append(ins.get(q, "") + (repl[q] if q in repl else t.ws + t.s))
            if q == 0:
                if probe: s.append(" proof { assert(false); /*vx_probe*/ } ")
                if fn.pre and not fn.post: s.append("\n" + fn.pre + "\n")
        b = "".join(s).strip()
        if fn.post:
            # tail expression bound so that ghost code can follow it (no effect on executable code)
            b = "{ " + (fn.pre + "\n" if fn.pre else "") + "let vx_tail = " + b + ";\n" + fn.post + "\n vx_tail }"
        return fn.attrs + ("\n" if fn.attrs else "") + out + b + "\n", line0

    def generate(self, probe=False):
        self.rewrites, self.trusted_notes, self.fns = [], [], []
        out = [HEADER.replace("use vstd::prelude::*;", "use vstd::prelude::*;\n" + self.uses)]
        def emit(s): out.append(s if s.endswith("\n") else s + "\n")
        def lines(): return sum(x.count("\n") for x in out)
        for p in self.parts:
            if p[0] == "raw": emit(p[1])
            elif p[0] == "item":
                _, rel, name, subs, attrs = p
                k, toks = self.src(rel).get(name)
                t = make_pub(self._common(toks, subs, name))
                emit(attrs + "\n" + text(t).strip())
            elif p[0] == "frame":
                _, rel, name, pred, but = p
                k, toks = self.src(rel).get(name)
                fs = field_names(make_pub(self._common(toks, [], name)))
                for b in but:
                    if b not in fs: raise Lost(f"{name}: no field {b}")
                emit(f"pub open spec fn {pred}(a: {name}, b: {name}) -> bool {{ " + " && ".join(f"a.{f} == b.{f}" for f in fs if f not in but) + " }")
            elif p[0] == "fn":
                _, rel, fn = p
                t, l0 = self._fn_text(rel, fn, fn.name, probe)
                a = lines() + 1; emit(t)
                self.fns.append(dict(name=fn.name, file=rel, line=l0, gen=(a, lines()), trusted=fn.trusted))
            elif p[0] == "impl":
                _, rel, typ, fns, header, extra = p
                h = header or text(self._common(self.src(rel).impl_header(typ), [], "impl " + typ)).strip()
                emit(h + " {" + extra)
                for fn in fns:
                    t, l0 = self._fn_text(rel, fn, typ + "::" + fn.name, probe)
                    a = lines() + 1; emit(t)
                    self.fns.append(dict(name=typ + "::" + fn.name, file=rel, line=l0, gen=(a, lines()), trusted=fn.trusted))
                emit("}")
        emit(FOOTER)
        return "".join(out)

def run_verus(path, flags, timeout, log_dir=None):
    cmd = ["verus", path, "--output-json", "--time", "--error-format=json", "--multiple-errors", "12", "--triggers-mode", "silent"] + list(flags)
    if log_dir: cmd += ["--log-dir", log_dir, "--log", "air-final"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        so, se, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        return dict(status="undecided", reason="verus timed out", errors=[], wall=time.time() - t0, cmd=" ".join(cmd), raw="")
    diags = []
    for ln in se.splitlines():
        ln = ln.strip()
        if ln.startswith("{"):
            try: diags.append(json.loads(ln))
            except ValueError: pass
    try: js = json.loads(so[so.index("{"):])
    except ValueError: js = {}
    vr = js.get("verification-results", {})
    errors, other = [], []
    for d in diags:
        if d.get("level") != "error": continue
        m = d.get("message", "")
        if m.startswith("aborting due to"): continue
        spans = d.get("spans", []) + [s for c in d.get("children", []) for s in c.get("spans", [])]
        e = dict(message=m, spans=[dict(line=s["line_start"], label=s.get("label") or "", text="".join(x["text"] for x in s.get("text", []))[:300].strip(), primary=s.get("is_primary")) for s in spans], rendered=d.get("rendered", ""))
        (errors if FAIL_MSGS_RE.search(m) and d.get("code") is None else other).append(e)
    res = dict(verified=vr.get("verified", 0), nerr=vr.get("errors", 0), errors=errors, other=other, wall=time.time() - t0, cmd=" ".join(cmd),
               times=js.get("times-ms", {}), raw=se if not diags else "")
    if not vr and not errors: res.update(status="undecided", reason="verifier did not run: " + (other[0]["message"] if other else se[-400:]))
    elif errors: res["status"] = "failed"; res["reason"] = ""
    elif other: res.update(status="undecided", reason=other[0]["message"])
    elif vr.get("success"): res.update(status="proved", reason="")
    else: res.update(status="undecided", reason="no success reported")
    if any("rlimit" in e["message"].lower() or "resource limit" in e["message"].lower() for e in other) : res["rlimit"] = True
    return res

def count_obligations(log_dir):
    n = 0
    for root, _, fs in os.walk(log_dir):
        for f in fs:
            if f.endswith(".air-final") or ".air" in f:
                with open(os.path.join(root, f), errors="replace") as h: n += len(re.findall(r"\(assert\s+\(?[^()]*\(location|\(location\b", h.read()))
    return n
