#!/usr/bin/env python3
"""vx: contract overlays on the real code.

An overlay file (`proofs/*.vrs`) holds, for each function under contract, the text of the function of /repo with Verus
annotations inside `/*@ ... @*/` blocks.  On every run the function is read again from /repo's working tree, tokenised
(comments and whitespace removed), passed through the fixed rewrite rules below, and compared with the overlay with its
annotation blocks erased.

 * equal      -> the verified text is, token for token, the code that runs (modulo the listed rewrites);
 * different  -> the *current* tokens are used; the annotation blocks are carried over by token alignment.

The output handed to Verus always contains the current /repo tokens, never the stored ones.

Overlay sections:
  //#RAW                                   raw Verus text (specs, lemmas, impl wrappers)
  //#FN <file> :: [impl <header> ::] fn <name> [| rule,rule]   function, optional named extra rewrite rules
  //#ITEM <file> :: struct|enum|const|type <name>             type/const definition
"""
import difflib, json, os, re, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
TOK = re.compile(r"""
  (?P<ann>/\*@.*?@\*/)
 |(?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0x[0-9a-fA-F_]+\w*|0b[01_]+\w*|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|\|=|&=|\.\.=|\.\.|.)
""", re.X | re.S)


class Tok:
    __slots__ = ("t", "k", "sp", "pos", "end", "line")

    def __init__(self, t, k, sp, pos, end):
        self.t, self.k, self.sp, self.pos, self.end = t, k, sp, pos, end

    def __repr__(self):
        return self.t


def tokenize(src, keep_ann=False):
    out, i, sp = [], 0, ""
    while i < len(src):
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == "h":
            k = "rstr"
        t = m.group(0)
        if k == "bc":
            d, j = 1, i + 2
            while d and j < len(src):
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; sp = sp or " "
            continue
        i = m.end()
        if k == "ws":
            sp = "\n" if "\n" in t else (sp or " ")
            continue
        if k == "lc":
            sp = "\n"
            continue
        if k == "ann":
            if keep_ann:
                out.append(Tok(t[3:-3], "ann", sp, m.start(), i))
            sp = sp or " "
            continue
        # numbers like `0..n` : the regex never eats `..` because it needs a digit after the dot
        out.append(Tok(t, k, sp, m.start(), i))
        sp = ""
    return out


def texts(toks):
    return [t.t for t in toks]


def T(s, sp=" "):
    r = tokenize(s)
    if r: r[0].sp = sp
    return r


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(toks, i):
    """index of the token closing the bracket opened at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].t in OPEN: d += 1
        elif toks[j].t in (")", "]", "}"):
            d -= 1
            if d == 0: return j
    raise ValueError("unbalanced")


_cache = {}


def file_tokens(path):
    full = os.path.join(REPO, path)
    st = os.stat(full)
    key = (full, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        with open(full, encoding="utf-8") as f:
            _cache[key] = tokenize(f.read())
    return _cache[key]


def find_item(path, ctx, kind, name):
    """tokens of an item; ctx is None or 'impl Foo' / 'impl Trait for Foo' / 'mod m'"""
    toks = file_tokens(path)
    ranges = [(0, len(toks))]
    if ctx:
        for c in ctx:
            want = texts(T(c))
            nr = []
            for lo, hi in ranges:
                i = lo
                while i < hi:
                    if texts(toks[i:i + len(want)]) == want and i + len(want) < len(toks) and toks[i + len(want)].t in ("{", "where"):
                        j = i + len(want)
                        while toks[j].t != "{": j += 1
                        nr.append((j + 1, match_close(toks, j)))
                        i = j
                    i += 1
            ranges = nr
    hits = []
    for lo, hi in ranges:
        i, d = lo, 0
        while i < hi:
            t = toks[i].t
            if t in OPEN: d += 1
            elif t in (")", "]", "}"): d -= 1
            elif d == 0 and t == kind and i + 1 < hi and toks[i + 1].t == name and toks[i].k == "id":
                j = i
                while True:
                    j += 1
                    if toks[j].t in ("(", "["): j = match_close(toks, j); continue
                    if toks[j].t == ";": break
                    if toks[j].t == "{":
                        j = match_close(toks, j)
                        if kind in ("const", "static"):
                            continue
                        break
                hits.append(toks[i:j + 1])
                i = j
            i += 1
    if not hits:
        return None
    return [Tok(t.t, t.k, t.sp, t.pos, t.end) for t in hits[0]]


# ---------------------------------------------------------------- rewrite rules (applied to the /repo tokens)
def r_attrs(toks, log):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            j = match_close(toks, i + 1)
            log.append("drop attribute " + "".join(texts(toks[i:j + 1])))
            i = j + 1
            continue
        out.append(toks[i]); i += 1
    return out


def r_debug_assert(toks, log):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t in ("debug_assert", "debug_assert_eq", "debug_assert_ne") and toks[i + 1].t == "!":
            j = match_close(toks, i + 2)
            if j + 1 < len(toks) and toks[j + 1].t == ";": j += 1
            log.append("drop " + toks[i].t + "!")
            i = j + 1
            continue
        out.append(toks[i]); i += 1
    return out


def r_vis(toks, log):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "pub":
            if i + 1 < len(toks) and toks[i + 1].t == "(" and toks[i + 2].t in ("crate", "super", "self", "in"):
                i = match_close(toks, i + 1) + 1
            else:
                i += 1
            continue
        out.append(toks[i]); i += 1
    return out


def for_parts(toks, i):
    """for PAT in EXPR { -> (pat tokens, expr tokens, index of '{')"""
    j, d = i + 1, 0
    while not (toks[j].t == "in" and d == 0):
        if toks[j].t in OPEN: d += 1
        elif toks[j].t in (")", "]", "}"): d -= 1
        j += 1
    pat = toks[i + 1:j]
    k = j + 1
    while toks[k].t != "{":
        if toks[k].t in ("(", "["): k = match_close(toks, k)
        k += 1
    return pat, toks[j + 1:k], k


def r_for(toks, log):
    """for &x in E {        -> for x__r in E { let x = *x__r;
       for (i, x) in E.iter().enumerate() { -> for i in 0 .. E.len() { let x = &E[i];   (&x: let x = E[i];)"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and toks[i + 1].t != "<":
            pat, ex, k = for_parts(toks, i)
            pt, et = texts(pat), texts(ex)
            if len(pt) == 2 and pt[0] == "&" and pat[1].k == "id":
                x = pt[1]
                log.append(f"for &{x} in .. => for {x}__r in .. {{ let {x} = *{x}__r;")
                out += T(f"for {x}__r in", toks[i].sp) + ex + T("{ let %s = * %s__r ;" % (x, x))
                i = k + 1
                continue
            if et[-8:] == [".", "iter", "(", ")", ".", "enumerate", "(", ")"] and pt[0] == "(":
                body = texts(pat[1:-1])
                c = body.index(",")
                ix, x = body[:c], body[c + 1:]
                base = "".join(et[:-8])
                bs = " ".join(et[:-8])
                log.append(f"for ({''.join(ix)}, {''.join(x)}) in {base}.iter().enumerate() => index loop over 0..{base}.len()")
                if ix == ["_"]: ix = ["i__e"]
                if x[0] == "&":
                    let = f"let {x[1]} = {bs} [ {ix[0]} ] ;"
                else:
                    let = f"let {x[0]} = & {bs} [ {ix[0]} ] ;"
                out += T(f"for {ix[0]} in 0 .. {bs} . len ( ) {{ {let}", toks[i].sp)
                i = k + 1
                continue
        out.append(toks[i]); i += 1
    return out


def r_paths(toks, log):
    """std::cmp::Ordering -> Ordering etc. (same item, already imported)"""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 4]) == ["std", "::", "cmp", "::"]:
            toks[i + 4].sp = toks[i].sp
            i += 4
            continue
        out.append(toks[i]); i += 1
    return out


BASE_RULES = [r_attrs, r_debug_assert, r_vis, r_for, r_paths]
NAMED = {}


def named(f):
    NAMED[f.__name__] = f
    return f


@named
def forcopy(toks, log):
    """for x in v {  (v a vector of Copy elements consumed by the loop)  -> while over its indices with x = v[x__i]"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and toks[i + 1].t != "<":
            pat, ex, k = for_parts(toks, i)
            pt, et = texts(pat), texts(ex)
            if len(pt) == 1 and len(et) == 1 and re.match(r"[a-z_]\w*$", et[0]):
                x, b = pt[0], et[0]
                log.append(f"for {x} in {b} (by value) => while over its indices")
                out += T(f"let mut {x}__i : usize = 0 ; while {x}__i < {b} . len ( ) {{ let {x} = {b} [ {x}__i ] ; {x}__i += 1 ;", toks[i].sp)
                i = k + 1
                continue
        out.append(toks[i]); i += 1
    return out


def _args(toks, i):
    """top-level comma-separated arguments of the bracket at i, and the index of its close"""
    j = match_close(toks, i)
    out, cur, k = [], [], i + 1
    while k < j:
        if toks[k].t in ("(", "[", "{"):
            e = match_close(toks, k)
            cur += toks[k:e + 1]; k = e + 1
            continue
        if toks[k].t == ",":
            out.append(cur); cur = []
        else:
            cur.append(toks[k])
        k += 1
    if cur: out.append(cur)
    return out, j


@named
def loud(toks, log):
    """panic!(..) -> refuse();  assert_eq!(a, b, ..) -> if a != b { refuse() };  assert!(c, ..) -> if !(c) { refuse() };  .unwrap_or_else(|| { panic!(..) }) -> .or_refuse()"""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 4]) == [".", "unwrap_or_else", "(", "||"] and texts(toks[i + 4:i + 7]) == ["{", "panic", "!"]:
            log.append(".unwrap_or_else(|| panic!(..)) => .or_refuse()")
            out += T(". or_refuse ( )", toks[i].sp); i = match_close(toks, i + 2) + 1
            continue
        if toks[i].k == "id" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t == "(" and toks[i].t in ("panic", "assert", "assert_eq"):
            a, j = _args(toks, i + 2)
            if toks[i].t == "panic": new = T("refuse ( )", toks[i].sp)
            elif toks[i].t == "assert": new = T("if ! (", toks[i].sp) + a[0] + T(") { refuse ( ) ; }")
            else: new = T("if", toks[i].sp) + a[0] + T("!=") + a[1] + T("{ refuse ( ) ; }")
            log.append(toks[i].t + "!(..) => refusal")
            out += new; i = j + 1
            continue
        out.append(toks[i]); i += 1
    return out


@named
def enumfilter(toks, log):
    """BASE.iter().enumerate().filter_map(|(i, a)| B).collect() -> the loop it stands for"""
    pat = [".", "iter", "(", ")", ".", "enumerate", "(", ")", ".", "filter_map", "("]
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + len(pat)]) == pat:
            c = i + len(pat)
            e = match_close(toks, c - 1)
            if texts(toks[c:c + 2]) == ["|", "("] and toks[c + 3].t == "," and texts(toks[c + 5:c + 7]) == [")", "|"] and texts(toks[e + 1:e + 5]) == [".", "collect", "(", ")"]:
                ix, el = toks[c + 2].t, toks[c + 4].t
                base = out.pop().t
                log.append(f"{base}.iter().enumerate().filter_map(|..| ..).collect() => the loop it stands for")
                out += T(f"{{ let mut fm__r = Vec :: new ( ) ; let mut {ix} : usize = 0 ; while {ix} < {base} . len ( ) {{ let {el} = & {base} [ {ix} ] ; if let Some ( fm__x ) =", toks[i].sp)
                out += toks[c + 7:e] + T(f"{{ fm__r . push ( fm__x ) ; }} {ix} += 1 ; }} fm__r }}")
                i = e + 5
                continue
        out.append(toks[i]); i += 1
    return out


@named
def refpat(toks, log):
    """if let Some(&x) = E {  -> if let Some(x__r) = E { let x = *x__r ;"""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 5]) == ["if", "let", "Some", "(", "&"] and texts(toks[i + 6:i + 8]) == [")", "="]:
            x = toks[i + 5].t
            k, d = i + 8, 0
            while not (toks[k].t == "{" and d == 0):
                if toks[k].t in ("(", "["): d += 1
                elif toks[k].t in (")", "]"): d -= 1
                k += 1
            log.append(f"if let Some(&{x}) => if let Some({x}__r) with {x} = *{x}__r")
            out += T(f"if let Some ( {x}__r ) =", toks[i].sp) + toks[i + 8:k] + T(f"{{ let {x} = * {x}__r ;")
            i = k + 1
            continue
        out.append(toks[i]); i += 1
    return out


@named
def oncelock(toks, log):
    """fn f() -> &'static T { static S: OnceLock<T> = OnceLock::new(); S.get_or_init(|| { B }) }  -> fn f() -> T { B }
    (drops the caching: every call returns what the initialiser computes)"""
    tx = texts(toks)
    if "OnceLock" not in tx or "get_or_init" not in tx: return toks
    b0 = next(i for i, t in enumerate(tx) if t == "{")
    g = tx.index("get_or_init")
    if tx[g + 1:g + 4] != ["(", "|", "|"] and tx[g + 1:g + 3] != ["(", "||"]: return toks
    k = g + (4 if tx[g + 2] == "|" else 3)
    if tx[k] != "{": return toks
    e = match_close(toks, k)
    head = [t for t in toks[:b0] if t.t not in ("&", "'static", "static", "'")]
    log.append("OnceLock::get_or_init(|| B) => B (the value is computed on each call instead of cached)")
    return head + toks[k:e + 1]


@named
def whilelet(toks, log):
    """while let P = E { B }  -> loop { let P = E else { break ; } ; B }"""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 2]) == ["while", "let"]:
            k, d = i + 2, 0
            while not (toks[k].t == "{" and d == 0 and "=" in texts(toks[i:k])):
                if toks[k].t in ("(", "[", "{"): d += 1
                elif toks[k].t in (")", "]", "}"): d -= 1
                k += 1
            log.append(f"while let {' '.join(texts(toks[i + 2:k]))} => loop with let-else")
            out += T("loop { let", toks[i].sp) + toks[i + 2:k] + T("else { break ; } ;")
            i = k + 1
            continue
        out.append(toks[i]); i += 1
    return out


@named
def intofind(toks, log):
    """V.into_iter().find(|&x| B)  -> the loop it stands for (V a vector of Copy elements, not used again)"""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 7]) == [".", "into_iter", "(", ")", ".", "find", "("] and out and out[-1].k == "id":
            cp = closure_parts(toks, i + 6)
            if cp and len(cp[0]) == 2 and cp[0][0] == "&":
                x, body, j = cp[0][1], cp[1], cp[2]
                b = out.pop()
                log.append(f"{b.t}.into_iter().find(|&{x}| ..) => the loop it stands for")
                out += T(f"{{ let mut {x}__find : Option < usize > = None ; let mut {x}__k : usize = 0 ; while {x}__k < {b.t} . len ( ) {{ let {x} = {b.t} [ {x}__k ] ; {x}__k += 1 ; if (", b.sp) + body + T(f") {{ {x}__find = Some ( {x} ) ; break ; }} }} {x}__find }}")
                i = j + 1
                continue
        out.append(toks[i]); i += 1
    return out


@named
def forwhile(toks, log):
    """for x in A .. B {    -> let mut x__i = A; let x__e = B; while x__i < x__e { let x = x__i; x__i += 1;
       for x in E {         -> let mut x__i: usize = 0; while x__i < E.len() { let x = &E[x__i]; x__i += 1;   (E a slice, &Vec or .iter())
    so that `continue` stays inside what the verifier accepts; the iterable is a place expression, evaluated without effect."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and toks[i + 1].t != "<":
            pat, ex, k = for_parts(toks, i)
            pt, et = texts(pat), texts(ex)
            if len(pt) == 1 and "..=" not in et:
                x = pt[0] if pt[0] != "_" else "u__"
                d, cut = 0, None
                for n, t in enumerate(et):
                    if t in ("(", "[", "{"): d += 1
                    elif t in (")", "]", "}"): d -= 1
                    elif t == ".." and d == 0: cut = n
                if cut is not None:
                    a, b = " ".join(et[:cut]), " ".join(et[cut + 1:])
                    log.append(f"for {x} in {''.join(et)} => while over {x}__i")
                    out += T(f"let mut {x}__i = {a} ; let {x}__e = {b} ; while {x}__i < {x}__e {{ let {x} = {x}__i ; {x}__i += 1 ;", toks[i].sp)
                    i = k + 1
                    continue
                if et[-4:] == [".", "iter", "(", ")"]: et = et[:-4]
                mut = et[:2] == ["&", "mut"]
                if et[0] == "&": et = et[2 if mut else 1:]
                if all(re.match(r"\w+$|[.\[\]]$", t) for t in et):
                    b = " ".join(et)
                    if mut:
                        j = match_close(toks, k)
                        body, n = [], k + 1
                        while n < j:
                            if toks[n].t == "*" and toks[n + 1].t == x and toks[n - 1].t in ("{", ";", "}"):
                                body += T(f"{b} [ {x}__m ]", toks[n].sp); n += 2
                                continue
                            body.append(toks[n]); n += 1
                        if x in texts(body):
                            out.append(toks[i]); i += 1
                            continue
                        log.append(f"for {x} in &mut {''.join(et)} => while over its indices")
                        out += T(f"let mut {x}__i : usize = 0 ; while {x}__i < {b} . len ( ) {{ let {x}__m = {x}__i ; {x}__i += 1 ;", toks[i].sp) + body
                        i = j
                        continue
                    log.append(f"for {x} in {''.join(et)} => while over its indices")
                    out += T(f"let mut {x}__i : usize = 0 ; while {x}__i < {b} . len ( ) {{ let {x} = & {b} [ {x}__i ] ; {x}__i += 1 ;", toks[i].sp)
                    i = k + 1
                    continue
        out.append(toks[i]); i += 1
    return out


def closure_parts(toks, i):
    """toks[i] is '(' of a call whose only argument is a closure |P| B -> (binding text, body tokens, index of ')') or None"""
    j = match_close(toks, i)
    if toks[i + 1].t != "|": return None
    k = i + 2
    while toks[k].t != "|": k += 1
    pat = texts(toks[i + 2:k])
    body = toks[k + 1:j]
    if body and body[-1].t == ",": body = body[:-1]
    return pat, body, j


@named
def enummap(toks, log):
    """E.iter().enumerate().map(|(i, x)| B).collect() and V.extend((A..B).map(|j| X)) as the loops they stand for"""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 10]) == [".", "iter", "(", ")", ".", "enumerate", "(", ")", ".", "map"] and out and out[-1].k == "id":
            cp = closure_parts(toks, i + 10)
            if cp and len(cp[0]) == 5 and cp[0][0] == "(" and texts(toks[cp[2] + 1:cp[2] + 5]) == [".", "collect", "(", ")"]:
                n, x, b = cp[0][1], cp[0][3], out.pop()
                log.append(f"{b.t}.iter().enumerate().map(|({n}, {x})| ..).collect() => the loop it stands for")
                out += T(f"{{ let mut {x}__vec = Vec :: new ( ) ; let mut {n}__k : usize = 0 ; while {n}__k < {b.t} . len ( ) {{ let {n} = {n}__k ; let {x} = & {b.t} [ {n}__k ] ; {n}__k += 1 ; {x}__vec . push (", b.sp) + enummap(cp[1], log) + T(f") ; }} {x}__vec }}")
                i = cp[2] + 5
                continue
        if texts(toks[i:i + 4]) == [".", "extend", "(", "("] and out and out[-1].k == "id":
            j = match_close(toks, i + 3)
            inner = toks[i + 4:j]
            if ".." in texts(inner) and texts(toks[j + 1:j + 4]) == [".", "map", "("]:
                cp = closure_parts(toks, j + 3)
                if cp and len(cp[0]) == 1 and toks[cp[2] + 1].t == ")":
                    c = texts(inner).index("..")
                    x, v = cp[0][0], out.pop()
                    a, b = " ".join(texts(inner[:c])), " ".join(texts(inner[c + 1:]))
                    log.append(f"{v.t}.extend(({a}..{b}).map(|{x}| ..)) => the loop it stands for")
                    out += T(f"{{ let mut {x}__k = {a} ; let {x}__n = {b} ; while {x}__k < {x}__n {{ let {x} = {x}__k ; {x}__k += 1 ; {v.t} . push (", v.sp) + cp[1] + T(") ; } }")
                    i = cp[2] + 2
                    continue
        out.append(toks[i]); i += 1
    return out


def _mapiter(src, sink):
    """BASE.iter().map(|PAT| B).collect() / .sum() as the loop it stands for: source a slice of Copy items or a map, sink a map, a vector or an i64 sum"""
    def rule(toks, log):
        out, i = [], 0
        while i < len(toks):
            tx = texts(toks[i:i + 5])
            if len(tx) == 5 and tx[0] == "." and tx[1] in ("iter", "values") and tx[2:4] == ["(", ")"] and tx[4] == "." and texts(toks[i + 5:i + 7]) == ["map", "("]:
                cp = closure_parts(toks, i + 6)
                end = texts(toks[cp[2] + 1:cp[2] + 5]) if cp else None
                if cp and end == [".", "sum" if sink == "sum" else "collect", "(", ")"]:
                    base = []
                    while out and (out[-1].k == "id" or out[-1].t == "."): base.insert(0, out.pop())
                    bt = " ".join(texts(base))
                    pat = " ".join(t for t in cp[0] if t != "&")
                    if tx[1] == "values": pat = f"( _ , {pat} )"
                    log.append(f"{bt.replace(' ', '')}.{tx[1]}().map(|..| ..).{end[1]}() => the loop it stands for")
                    e = f"entries ( & {bt} )" if src == "map" else bt
                    new = {"map": "= BTreeMap :: new ( )", "vec": "= Vec :: new ( )", "sum": ": i64 = 0"}[sink]
                    out += T(f"{{ let it__e = {e} ; let mut it__i : usize = 0 ; let mut it__r {new} ; while it__i < it__e . len ( ) {{ let {pat} = it__e [ it__i ] ; it__i += 1 ;", base[0].sp if base else " ")
                    if sink == "map": out += T("let it__x = (") + cp[1] + T(") ; it__r . insert ( it__x . 0 , it__x . 1 ) ;")
                    elif sink == "vec": out += T("it__r . push (") + cp[1] + T(") ;")
                    else: out += T("it__r +=") + cp[1] + T(";")
                    out += T("} it__r }")
                    i = cp[2] + 5
                    continue
            out.append(toks[i]); i += 1
        return out
    return rule


for _n, _a in {"btmap": ("map", "map"), "btsum": ("map", "sum"), "slmap": ("slice", "map"), "slvec": ("slice", "vec")}.items(): NAMED[_n] = _mapiter(*_a)


@named
def forentries(toks, log):
    """for (&k, &PAT) in &MAP {  -> while over the map's entries in key order"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and toks[i + 1].t == "(":
            pat, ex, k = for_parts(toks, i)
            pt, et = texts(pat), texts(ex)
            if et[0] == "&" and pt[1] == "&":
                p = " ".join(t for t in pt if t != "&"); v = pt[2]
                log.append(f"for {''.join(pt)} in {''.join(et)} => while over its entries")
                out += T(f"let {v}__e = entries ( {' '.join(et)} ) ; let mut {v}__i : usize = 0 ; while {v}__i < {v}__e . len ( ) {{ let {p} = {v}__e [ {v}__i ] ; {v}__i += 1 ;", toks[i].sp)
                i = k + 1
                continue
        out.append(toks[i]); i += 1
    return out


@named
def fortuple(toks, log):
    """for (a, b) in E {  (E a slice of pairs)  -> while over its indices with a = &E[i].0 and b = &E[i].1"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and toks[i + 1].t == "(":
            pat, ex, k = for_parts(toks, i)
            pt, et = texts(pat), texts(ex)
            if et[0] == "&": et = et[1:]
            if len(pt) == 5 and all(re.match(r"\w+$|[.]$", t) for t in et):
                a, c, b = pt[1], pt[3], " ".join(et)
                log.append(f"for ({a}, {c}) in {''.join(et)} => while over its indices")
                out += T(f"let mut {a}__i : usize = 0 ; while {a}__i < {b} . len ( ) {{ let {a} = & {b} [ {a}__i ] . 0 ; let {c} = & {b} [ {a}__i ] . 1 ; {a}__i += 1 ;", toks[i].sp)
                i = k + 1
                continue
        out.append(toks[i]); i += 1
    return out


@named
def iterloop(toks, log):
    """E.iter().any(|P| B), .all, .position and .map(|P| B).collect(), V.extend(E.iter().map(|P| B)) as the loop they stand for,
    so that the closure body is verified where it is written.  E is a place expression (identifiers and fields)."""
    out, i = [], 0
    while i < len(toks):
        if texts(toks[i:i + 5]) == [".", "iter", "(", ")", "."] and toks[i + 5].t in ("any", "all", "position", "map") and toks[i + 6].t == "(":
            cp = closure_parts(toks, i + 6)
            fn = toks[i + 5].t
            st = len(out)
            while st > 0 and (out[st - 1].k == "id" or out[st - 1].t == ".") and out[st - 1].t not in ("return", "in", "if", "match", "let", "mut"): st -= 1
            base = out[st:]
            if cp and base and base[0].t != ".":
                pat, body, j = cp
                b = " ".join(texts(base))
                x = [t for t in pat if t not in ("&",)]
                if len(x) == 1 and re.match(r"\w+$", x[0]):
                    x = x[0]
                    refs = pat.count("&")
                    bind = f"let {x} = " + ("" if refs else "& ") + f"{b} [ {x}__k ] ;"
                    head = f"let mut {x}__k : usize = 0 ;"
                    loop = f"while {x}__k < {b} . len ( ) {{ {bind} {x}__k += 1 ;"
                    body = iterloop(body, [])
                    if fn in ("any", "all"):
                        res, neg = f"{x}__{fn}", "" if fn == "any" else "!"
                        new = T(f"{{ let mut {res} = {'false' if fn == 'any' else 'true'} ; {head} {loop} if {neg} (") + body + T(f") {{ {res} = {'true' if fn == 'any' else 'false'} ; break ; }} }} {res} }}")
                        end = j
                    elif fn == "position":
                        new = T(f"{{ let mut {x}__position : Option < usize > = None ; {head} {loop} if (") + body + T(f") {{ {x}__position = Some ( {x}__k - 1 ) ; break ; }} }} {x}__position }}")
                        end = j
                    elif texts(toks[j + 1:j + 5]) == [".", "collect", "(", ")"]:
                        new = T(f"{{ let mut {x}__vec = Vec :: new ( ) ; {head} {loop} {x}__vec . push (") + body + T(f") ; }} {x}__vec }}")
                        end = j + 4
                    elif texts(out[st - 3:st]) == [".", "extend", "("] and toks[j + 1].t == ")":
                        st -= 3
                        s0 = st
                        while s0 > 0 and (out[s0 - 1].k == "id" or out[s0 - 1].t == "."): s0 -= 1
                        v = " ".join(texts(out[s0:st]))
                        st = s0
                        base = out[st:]
                        new = T(f"{{ {head} {loop} {v} . push (") + body + T(") ; } }")
                        end = j + 1
                        fn = "extend"
                    else:
                        new = None
                    if new is not None:
                        if base: new[0].sp = base[0].sp
                        out = out[:st] + new
                        log.append(f"{b.replace(' ', '')}.iter().{fn}(|{''.join(pat)}| ..) => the loop it stands for")
                        i = end + 1
                        continue
        if toks[i].t == "(" and (not out or out[-1].k != "id" or out[-1].t in ("return", "in", "=")):
            j = match_close(toks, i)
            inner = toks[i + 1:j]
            d, cut = 0, None
            for n, t in enumerate(texts(inner)):
                if t in ("(", "[", "{"): d += 1
                elif t in (")", "]", "}"): d -= 1
                elif t == ".." and d == 0: cut = n
            if cut is not None and texts(toks[j + 1:j + 2]) == ["."] and toks[j + 2].t in ("any", "all", "find", "map") and toks[j + 3].t == "(":
                cp = closure_parts(toks, j + 3)
                fn = toks[j + 2].t
                if cp:
                    pat, body, e = cp
                    x = [t for t in pat if t != "&"]
                    if len(x) == 1 and (fn != "find" or pat[0] == "&") and (fn != "map" or texts(toks[e + 1:e + 5]) == [".", "collect", "(", ")"]):
                        x = x[0]
                        a, b = " ".join(texts(inner[:cut])), " ".join(texts(inner[cut + 1:]))
                        body = iterloop(body, [])
                        head = f"let mut {x}__k = {a} ; let {x}__n = {b} ; while {x}__k < {x}__n {{ let {x} = {x}__k ; {x}__k += 1 ;"
                        if fn in ("any", "all"):
                            res, neg = f"{x}__{fn}", "" if fn == "any" else "!"
                            new = T(f"{{ let mut {res} = {'false' if fn == 'any' else 'true'} ; {head} if {neg} (") + body + T(f") {{ {res} = {'true' if fn == 'any' else 'false'} ; break ; }} }} {res} }}")
                        elif fn == "find":
                            new = T(f"{{ let mut {x}__find = None ; {head} if (") + body + T(f") {{ {x}__find = Some ( {x} ) ; break ; }} }} {x}__find }}")
                        else:
                            new = T(f"{{ let mut {x}__vec = Vec :: new ( ) ; {head} {x}__vec . push (") + body + T(f") ; }} {x}__vec }}")
                            e += 4
                        new[0].sp = toks[i].sp
                        out += new
                        log.append(f"({a}..{b}).{fn}(|{''.join(pat)}| ..) => the loop it stands for")
                        i = e + 1
                        continue
        out.append(toks[i]); i += 1
    return out


def subst_rule(name, frm, to):
    """a named literal token rewrite"""
    fr = texts(T(frm))

    def rule(toks, log):
        out, i = [], 0
        n = 0
        while i < len(toks):
            if texts(toks[i:i + len(fr)]) == fr:
                out += T(to, toks[i].sp)
                i += len(fr); n += 1
                continue
            out.append(toks[i]); i += 1
        if n: log.append(f"{frm}  =>  {to}  (x{n})")
        return out
    NAMED[name] = rule


def emit(toks):
    s = []
    for t in toks:
        if t.k == "ann":
            s.append("\n" if t.sp == "\n" else " ")
            s.append(t.t)
            s.append(" ")
        else:
            s.append(t.sp)
            s.append(t.t)
    return "".join(s)


KW = {"for", "while", "loop", "if", "else", "match", "return", "break", "continue"}


def skeleton(toks):
    r = []
    code = [t for t in toks if t.k != "ann"]
    for i, t in enumerate(code):
        if t.t in KW: r.append(t.t)
        elif t.k == "id" and i + 1 < len(code) and code[i + 1].t in ("(", "!"):
            r.append(t.t + code[i + 1].t)
    return r


def transplant(ov, cur):
    """carry annotation tokens of ov over to cur (code tokens). returns tokens, clean?"""
    base = [t for t in ov if t.k != "ann"]
    bt, ct = texts(base), texts(cur)
    anns, n = [], 0      # (position in base, tok)
    for t in ov:
        if t.k == "ann": anns.append((n, t))
        else: n += 1
    if bt == ct:
        return ov, True, True
    sm = difflib.SequenceMatcher(None, bt, ct, autojunk=False)
    mp = {}
    for a, b, sz in sm.get_matching_blocks():
        for k in range(sz): mp[a + k] = b + k
    clean = True
    ins = {}
    for pos, t in anns:
        nxt, prv = mp.get(pos), mp.get(pos - 1)
        if nxt is not None and prv is not None and nxt != prv + 1:
            # something inserted right here: stay with whichever side is structural
            p = nxt if base[pos].t in ("{", "}", ")") else prv + 1
        elif nxt is not None: p = nxt
        elif prv is not None: p = prv + 1
        else:
            clean = False
            q = pos
            while q < len(base) and q not in mp: q += 1
            p = mp.get(q, len(cur))
        ins.setdefault(p, []).append(t)
    out = []
    for i, t in enumerate(cur):
        out += ins.get(i, [])
        out.append(t)
    out += ins.get(len(cur), [])
    return out, False, clean


class Section:
    pass


def parse_overlay(path):
    secs, cur = [], None
    with open(path) as f:
        for line in f:
            m = re.match(r"//#(RAW|FN|ITEM|SUBST)\b\s*(.*)$", line)
            if m:
                if m.group(1) == "SUBST":
                    nm, rest = m.group(2).split(":", 1)
                    a, b = rest.split("=>>")
                    subst_rule(nm.strip(), a.strip(), b.strip())
                    continue
                cur = Section(); cur.kind = m.group(1); cur.arg = m.group(2).strip(); cur.body = []
                secs.append(cur)
            elif cur is not None:
                cur.body.append(line)
    return secs


def build_unit(path, external=()):
    """returns (text, info[list per fn], linemap)"""
    secs = parse_overlay(path)
    out, infos = [], []
    line = 1

    def add(s):
        nonlocal line
        out.append(s)
        line += s.count("\n")
    for s in secs:
        body = "".join(s.body)
        if s.kind == "RAW":
            add(body)
            continue
        arg, rules = s.arg, []
        if "|" in arg:
            arg, rs = arg.split("|", 1)
            rules = [x.strip() for x in rs.split(",")]
        parts = [x.strip() for x in arg.split(" :: ")]
        file, last = parts[0], parts[-1]
        kind, name = last.split(" ", 1)
        ctx = parts[1:-1] or None
        info = {"file": file, "item": " :: ".join(parts[1:]), "kind": kind, "rewrites": [], "status": "identical", "clean": True, "skeleton_same": True}
        infos.append(info)
        ov = tokenize(body, keep_ann=True)
        try:
            cur = find_item(file, ctx, kind, name)
        except (FileNotFoundError, ValueError) as e:
            cur = None
        if cur is None:
            info["status"] = "missing"; info["clean"] = False; info["skeleton_same"] = False
            # keep the contract, trust the body (never counted as proved)
            info["l0"] = line
            add(force_external(ov) + "\n")
            info["l1"] = line
            continue
        for r in BASE_RULES: cur = r(cur, info["rewrites"])
        for r in rules: cur = NAMED[r](cur, info["rewrites"])
        toks, same, clean = transplant(ov, cur)
        if kind != "fn" and not ov:
            pass                       # a definition taken as it stands in the current source
        elif not same:
            info["status"] = "changed"
            info["clean"] = clean
            info["skeleton_same"] = skeleton(ov) == skeleton(cur)
        info["l0"] = line
        if info["item"] in external:
            info["status"] += "-external"
            add(force_external(ov) + "\n")
        else:
            add((body if same else emit(toks)) if not same else re.sub(r"/\*@|@\*/", "", body))
            add("\n")
        info["l1"] = line
    return "".join(out), infos


def force_external(ov):
    """emit the overlay's own signature+contract with an unverified body"""
    if not ov or "fn" not in texts([t for t in ov if t.k != "ann"])[:4]:
        return emit(ov)
    d = 0
    for i, t in enumerate(ov):
        if t.k == "ann": continue
        if t.t in ("(", "["): d += 1
        elif t.t in (")", "]"): d -= 1
        elif t.t == "{" and d == 0: break
    return "#[verifier::external_body]\n" + emit(ov[:i]) + "{ unimplemented!() }"


def run_verus(text, workdir, name, rlimit=30, timeout=600, extra=()):
    os.makedirs(workdir, exist_ok=True)
    f = os.path.join(workdir, name + ".rs")
    with open(f, "w") as fh: fh.write(text)
    cmd = ["verus", f, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--multiple-errors", "4", "--error-format=json", *extra]
    t = time.time()
    env = dict(os.environ); env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {"cmd": " ".join(cmd), "wall": time.time() - t, "timeout": True, "verified": 0, "errors": 0, "diags": [], "json": None, "raw": "timeout"}
    js = None
    try:
        js = json.loads(p.stdout)
    except Exception:
        i = p.stdout.find("{")
        try: js = json.loads(p.stdout[i:])
        except Exception: js = None
    diags = []
    for l in p.stderr.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("level") != "error": continue
        lines = [s["line_start"] for s in d.get("spans", []) if s.get("file_name", "").endswith(name + ".rs")]
        prim = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary") and s.get("file_name", "").endswith(name + ".rs")]
        diags.append({"msg": d.get("message", ""), "lines": lines, "primary": prim, "rendered": d.get("rendered", ""),
                      "labels": [s.get("label") for s in d.get("spans", []) if s.get("label")]})
    vr = (js or {}).get("verification-results", {})
    return {"cmd": " ".join(cmd), "wall": time.time() - t, "timeout": False, "rc": p.returncode,
            "verified": vr.get("verified", 0), "errors": vr.get("errors", 0),
            "vir_error": vr.get("encountered-vir-error", False), "is_json": js is not None,
            "diags": diags, "json": js, "raw": p.stderr[-4000:]}


SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "possible bit shift underflow/overflow", "recommendation not met", "unreachable", "requires not satisfied",
            "loop invariant not", "termination", "decreases", "failed precondition", "failed this", "assert")


def is_semantic(msg):
    return any(k in msg for k in SEMANTIC) and "rlimit" not in msg.lower() and "Resource limit" not in msg


def verify_unit(path, workdir, rlimit=30, timeout=600):
    """Verify an overlay unit. returns a result dict."""
    name = os.path.splitext(os.path.basename(path))[0]
    ext = set()
    attempts = []
    while True:
        text, infos = build_unit(path, ext)
        r = run_verus(text, workdir, name, rlimit, timeout)
        attempts.append(r)

        def owner(lines):
            for i in infos:
                for l in lines:
                    if i["l0"] <= l < i["l1"]: return i
            return None
        compile_err = (not r["timeout"]) and (not r["is_json"] or r["vir_error"] or (r["verified"] == 0 and r["errors"] == 0))
        changed = [i for i in infos if i["kind"] == "fn" and i["status"] == "changed" and i["item"] not in ext]
        if (compile_err or r["timeout"]) and changed and len(attempts) < 6:
            own = [owner(d["primary"] or d["lines"]) for d in r["diags"]]
            own = [o for o in own if o and o in changed]
            for o in (own or changed): ext.add(o["item"])
            continue
        break
    fails, other = [], []
    for d in r["diags"]:
        if d["msg"].startswith("aborting due to"): continue
        o = owner(d["primary"]) or owner(d["lines"])
        e = {"msg": d["msg"], "fn": o["item"] if o else "(spec/lemma)", "file": o["file"] if o else None,
             "changed": bool(o and o["status"].startswith("changed")), "clean": bool(o and o["clean"]),
             "skeleton_same": bool(o and o["skeleton_same"]), "rendered": d["rendered"][:2500]}
        (fails if is_semantic(d["msg"]) else other).append(e)
    functions = [{"function": i["item"], "file": i["file"], "status": i["status"], "rewrites": i["rewrites"]} for i in infos if i["kind"] == "fn"]
    smt = 0
    try:
        smt = r["json"]["times-ms"]["smt"]["total"]
    except Exception:
        pass
    missing = [i["item"] for i in infos if i["status"] == "missing"]
    bounded = sorted(ext | set(i["item"] for i in infos if i["status"] == "missing" and i["kind"] == "fn"))
    ok = r.get("rc") == 0 and r["verified"] > 0 and r["errors"] == 0
    trusted = trusted_scan(text)
    return {"unit": name, "ok": ok, "verified": r["verified"], "errors": r["errors"], "fails": fails, "other": other,
            "functions": functions, "not_proved": bounded, "missing": missing, "smt_ms": smt, "wall": sum(a["wall"] for a in attempts),
            "cmd": r["cmd"], "trusted": trusted, "raw": r["raw"], "changed": [i["item"] for i in infos if i["status"].startswith("changed")],
            "timeout": r["timeout"], "text": text}


def trusted_scan(text):
    res = []
    text = re.sub(r"//[^\n]*", "", text)
    for m in re.finditer(r"(\bassume\s*\([^;]*;|\badmit\s*\(\s*\)|#\[verifier::external_body\][^{;]*|\bassume_specification[^;]*;|#\[verifier::external[^\]]*\][^{;]*|#\[verifier::truncate\])", text):
        s = re.sub(r"\s+", " ", m.group(0)).strip()
        if s.startswith("#[verifier::truncate"): continue
        res.append(s[:160])
    return res


if __name__ == "__main__":
    p = sys.argv[1]
    r = verify_unit(p, os.environ.get("VX_WORK", "/tmp/vxwork"), rlimit=int(os.environ.get("RL", "30")))
    for f in r["fails"] + r["other"]:
        print("--", f["fn"], ":", f["msg"]); print(f["rendered"])
    if not r["ok"] and not r["fails"] and not r["other"]: print(r["raw"])
    print("ok", r["ok"], "verified", r["verified"], "errors", r["errors"], "wall %.1f" % r["wall"], "smt_ms", r["smt_ms"])
    for f in r["functions"]:
        print("  ", f["function"], f["status"], f["rewrites"])
    print("trusted:", *r["trusted"], sep="\n   ")
