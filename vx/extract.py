"""Mechanical extraction of functions of /repo into a Verus file.

A unit (units/*.vrs) is Verus text with directives:

  //@use NAME                              include units/NAME.vrs (once)
  //@type FILE :: struct|enum|type NAME    the type definition, attributes and doc comments dropped
  //@consts FILE :: bitflags NAME          the constants of a bitflags! block
  //@macro FILE :: NAME                    a macro_rules! definition, verbatim
  //@fn FILE :: [IMPL ::] NAME [key=value ...]
      <requires/ensures text>
  @loop K [it=NAME]                        loop contract of the K-th loop (source order) of the body
  @start | @end                            ghost text at the start / end of the body
  @loop_start K | @loop_end K | @before_loop K | @after_loop K
  @before `toks` [#N] | @after `toks` [#N] ghost text around a statement found by its tokens
  @sub `toks` => `toks` [#all]             declared rewrite of the executable text
  //@end

The executable text is the source text of the function; what the rewrites below and the declared
@sub rewrites change is all that is dropped. Ghost text is only inserted between tokens of it.
"""
import os, re, sys, json

REPO = os.environ.get("VX_REPO", "/repo")
UNITS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")


class Lost(Exception):
    """The source no longer has the shape the contracts are attached to: undecided, never an alarm."""


TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?[A-Za-z0-9_]*)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|.)
""", re.X | re.S)


def lex(s):
    out = []
    for m in TOK.finditer(s):
        k = m.lastgroup
        if k == "h":
            k = "str"
        out.append((k, m.group()))
    return out


def code(toks):
    return [t for t in toks if t[0] not in ("ws", "lc", "bc")]


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j][1] if toks[j][0] == "op" else ""
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


_cache = {}


def source(file):
    if file not in _cache:
        p = os.path.join(REPO, "rustfst/src", file)
        try:
            _cache[file] = code(lex(open(p).read()))
        except OSError:
            raise Lost("file %s is gone" % file)
    return _cache[file]


def strip_attrs(toks):
    out = []
    i = 0
    while i < len(toks):
        if toks[i][1] == "#" and i + 1 < len(toks) and toks[i + 1][1] in ("[", "!"):
            j = i + 1
            if toks[j][1] == "!":
                j += 1
            i = match(toks, j) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def render(toks):
    """tokens to text, one space between, newlines after ; { }"""
    s = []
    for k, t in toks:
        if k == "ghost":
            s.append("\n" + t + "\n")
            continue
        s.append(t)
        s.append("\n" if t in (";", "{", "}") else " ")
    return "".join(s)


def norm_impl(toks):
    """impl header as 'Trait for Type' / 'Type' without generics"""
    out, d = [], 0
    for k, t in toks:
        if t == "where" and d == 0:
            break
        if t in ("<",):
            d += 1
        elif t == ">":
            d -= 1
        elif t == ">>":
            d -= 2
        elif d == 0 and k in ("id",) and t not in ("impl", "dyn", "unsafe"):
            out.append(t)
        elif d == 0 and t == "::":
            if out:
                out.pop()
    return " ".join(out)


def find_impls(toks, want):
    i = 0
    res = []
    while i < len(toks):
        if toks[i][1] == "impl" and toks[i][0] == "id" and (i == 0 or toks[i - 1][1] in ("}", ";", "]", "{", "unsafe")):
            j = i
            d = 0
            while toks[j][1] != "{":
                j += 1
            if norm_impl(toks[i:j]) == want or want.startswith("=") and "".join(t for _, t in toks[i:j]) == want[1:]:
                res.append((j + 1, match(toks, j)))
            i = j + 1
            continue
        if toks[i][1] == "trait" and toks[i][0] == "id":
            j = i
            while toks[j][1] not in ("{", ";"):
                j += 1
            if "trait " + toks[i + 1][1] == want:
                res.append((j + 1, match(toks, j)))
            i = j + 1
            continue
        i += 1
    if not res:
        raise Lost("impl %s not found" % want)
    return res


def cfg_test_mods(toks):
    spans = []
    for i in range(len(toks) - 1):
        if toks[i][1] == "#" and toks[i + 1][1] == "[":
            e = match(toks, i + 1)
            if [t for _, t in toks[i + 2:e]] == ["cfg", "(", "test", ")"] and toks[e + 1][1] == "mod":
                j = e
                while toks[j][1] not in ("{", ";"):
                    j += 1
                if toks[j][1] == "{":
                    spans.append((i, match(toks, j)))
    return spans


def get_fn(file, impl, name):
    toks = source(file)
    spans = find_impls(toks, impl) if impl else [(0, len(toks))]
    tests = cfg_test_mods(toks)
    found = []
    for a, b in spans:
        i = a
        while i < b:
            if toks[i][1] in OPEN and toks[i][0] == "op" and impl:
                i = match(toks, i) + 1
                continue
            if toks[i] == ("id", "fn") and toks[i + 1][1] == name and not any(x <= i <= y for x, y in tests):
                if not impl:
                    # only free functions: brace depth 0
                    d = 0
                    for t in toks[a:i]:
                        d += (t[1] == "{") - (t[1] == "}") if t[0] == "op" else 0
                    if d:
                        i += 1
                        continue
                s = i
                while s > a and toks[s - 1][1] in ("pub", "unsafe", "const", "extern", ")", "crate", "(", "super", "in"):
                    if toks[s - 1][1] == ")" and [t for _, t in toks[s - 4:s - 1]] != ["pub", "(", "crate"] and [t for _, t in toks[s - 4:s - 1]] != ["pub", "(", "super"]:
                        break
                    s -= 1
                j = i
                while toks[j][1] not in ("{", ";"):
                    if toks[j][1] in ("(", "["):
                        j = match(toks, j)
                    j += 1
                if toks[j][1] == ";":
                    i = j
                    continue
                found.append((toks[s:j], toks[j:match(toks, j) + 1]))
                i = match(toks, j) + 1
                continue
            i += 1
    if len(found) != 1:
        raise Lost("function %s%s: %d definitions in %s" % (impl + "::" if impl else "", name, len(found), file))
    return found[0]


def get_type(file, kind, name):
    toks = source(file)
    for i in range(len(toks) - 1):
        if toks[i] == ("id", kind) and toks[i + 1][1] == name:
            j = i
            while toks[j][1] not in ("{", ";", "("):
                j += 1
            if toks[j][1] == "(":
                j = match(toks, j)
                while toks[j][1] != ";":
                    j += 1
            elif toks[j][1] == "{":
                j = match(toks, j)
            return [("id", "pub")] + toks[i:j + 1]
    raise Lost("%s %s not found in %s" % (kind, name, file))


def pub_fields(toks):
    """pub on every field of a struct body (visibility carries no behaviour)"""
    t = [x for x in toks]
    out = []
    i = 0
    while i < len(t):
        if t[i][1] == "pub" and i + 1 < len(t) and t[i + 1][1] == "(" and t[i + 2][1] in ("crate", "super"):
            out.append(("id", "pub"))
            i += 4
            continue
        out.append(t[i])
        i += 1
    if any(x == ("id", "struct") for x in out[:3]):
        b = next((k for k, x in enumerate(out) if x[1] in ("{", "(") and x[0] == "op"), None)
        if b is not None:
            res = out[:b + 1]
            d = 0
            fresh = True
            for x in out[b + 1:]:
                if fresh and x[1] not in ("}", ")", "pub") and d == 0:
                    res.append(("id", "pub"))
                    fresh = False
                elif x[1] == "pub":
                    fresh = False
                if x[1] in ("<", "(", "["):
                    d += 1
                elif x[1] in (">", "]") or (x[1] == ")" and d > 0):
                    d -= 1
                elif x[1] == ">>":
                    d -= 2
                res.append(x)
                if x[1] == "," and d == 0:
                    fresh = True
            out = res
    return out


def seq_find(toks, pat, nth=0):
    n = len(pat)
    c = 0
    for i in range(len(toks) - n + 1):
        if [t[1] for t in toks[i:i + n]] == pat:
            if c == nth:
                return i
            c += 1
    return -1


RULES = [
    "comments, doc comments and attributes dropped; visibility widened to pub",
    "`unsafe` keyword dropped: get_unchecked/get_unchecked_mut become calls with an in-bounds precondition, unsafe_unwrap becomes unwrap (must be proved Some)",
    "anyhow errors carry no message: bail!/format_err!/ensure! build the unit error `Error`; with_context dropped",
    "debug_assert! dropped",
    "`for x in E.trs()` with a temporary E: the temporary gets a name; `for (i, x) in E.iter().enumerate()` over a slice becomes an index loop; a `for` over a range or slice whose body has `continue` becomes a `while` that advances first",
    "Arc::make_mut -> arc_make_mut, .clone() -> .vclone() (assumed: returns an equal value), Arc::clone(x) -> arc_clone(x)",
    "vec![x; n] -> vec_rep, .to_vec() -> .vto_vec() (assumed contracts); constants are taken with their value; generic bounds of a type may be dropped (declared)",
]


def rewrite(toks, log):
    """fixed rewrites, applied to every extracted function"""
    toks = strip_attrs(toks)
    out = []
    i = 0

    def nxt(k):
        return toks[i + k][1] if i + k < len(toks) else ""

    while i < len(toks):
        k, t = toks[i]
        if k == "id" and t == "unsafe":
            i += 1
            continue
        if t == "pub" and nxt(1) == "(" and nxt(2) in ("crate", "super"):
            out.append((k, "pub"))
            i += 4
            continue
        if t in ("bail", "format_err") and nxt(1) == "!":
            e = match(toks, i + 2)
            out += code(lex("return Err(mk_error())" if t == "bail" else "mk_error()"))
            i = e + 1
            continue
        if t == "ensure" and nxt(1) == "!":
            e = match(toks, i + 2)
            d = 0
            j = i + 3
            while j < e:
                x = toks[j][1]
                if x in OPEN:
                    j = match(toks, j)
                elif x == ",":
                    break
                j += 1
            out += code(lex("if !(")) + rewrite(toks[i + 3:j], log) + code(lex(") { return Err(mk_error()) ; }"))
            i = e + 1
            if i < len(toks) and toks[i][1] == ";":
                i += 1
            continue
        if t in ("debug_assert", "debug_assert_eq", "debug_assert_ne") and nxt(1) == "!":
            e = match(toks, i + 2)
            i = e + 1
            if i < len(toks) and toks[i][1] == ";":
                i += 1
            continue
        if t == "Arc" and nxt(1) == "::" and nxt(2) in ("make_mut", "clone") and nxt(3) == "(":
            out.append(("id", "arc_" + nxt(2)))
            i += 3
            continue
        if t == "vec" and nxt(1) == "!" and nxt(2) == "[":
            e = match(toks, i + 2)
            d = 0
            semi = None
            for j in range(i + 3, e):
                x = toks[j][1]
                d += x in OPEN
                d -= x in (")", "]", "}")
                if d == 0 and x == ";":
                    semi = j
            if semi is not None:
                out += code(lex("vec_rep(")) + rewrite(toks[i + 3:semi], log) + code(lex(",")) + rewrite(toks[semi + 1:e], log) + code(lex(")"))
                i = e + 1
                continue
        if t == "." and nxt(1) in ("clone", "cloned", "to_vec", "get_unchecked", "get_unchecked_mut") and nxt(2) == "(":
            out.append(toks[i])
            out.append(("id", {"clone": "vclone", "cloned": "vcloned", "to_vec": "vto_vec"}.get(nxt(1), "v" + nxt(1))))
            i += 2
            continue
        if t == "." and nxt(1) == "unsafe_unwrap":
            out += [("op", "."), ("id", "unwrap")]
            i += 2
            continue
        if t == "." and nxt(1) in ("with_context", "context") and nxt(2) == "(":
            i = match(toks, i + 2) + 1
            continue
        if t == "." and nxt(1) == "ok_or_else" and nxt(2) == "(" and nxt(3) == "||" and nxt(4) == "format_err":
            e = match(toks, i + 2)
            out += code(lex(".ok_or(mk_error())"))
            i = e + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def for_heads(toks):
    """for PAT in E.trs()  ->  let g_trs = E; for PAT in g_trs.trs()  (a name for the temporary)
    for (I, X) in E.iter().enumerate()  ->  for I in 0..E.len() { let X = &E[I]; ..  (E a slice or vector)"""
    out = toks
    i = 0
    while i < len(out):
        if out[i] == ("id", "for") and out[i + 1][1] != "<":
            j = i + 1
            while j < len(out) and out[j][1] != "in":
                if out[j][1] in OPEN:
                    j = match(out, j)
                j += 1
            if j >= len(out):
                break
            pat = out[i + 1:j]
            k = j + 1
            if out[k][1] == "{":
                e = match(out, k)
                inner, b = out[k + 1:e], e + 1
                while out[b][1] != "{":
                    inner = inner + [out[b]]
                    b += 1
            else:
                b = k
                while out[b][1] != "{":
                    if out[b][1] in OPEN:
                        b = match(out, b)
                    b += 1
                inner = out[k:b]
            w = [t[1] for t in inner]
            if w[-8:] == [".", "iter", "(", ")", ".", "enumerate", "(", ")"] and pat[0][1] == "(" and "," in [t[1] for t in pat]:
                base = inner[:-8]
                c = [t[1] for t in pat].index(",")
                I, X = pat[1:c], [t for t in pat[c + 1:-1] if t[1] != ","]
                pre = []
                if [t[1] for t in base[-4:]] == [".", "trs", "(", ")"] and any(t[1] == "(" for t in base[:-4]):
                    pre = code(lex("let g_trs =")) + base[:-4] + code(lex(";"))
                    base = code(lex("g_trs.trs()"))
                new = pre + [("id", "for")] + I + code(lex("in 0 ..")) + base + code(lex(". len ( ) {")) + code(lex("let")) + X + code(lex("= &")) + base + code(lex("[")) + I + code(lex("] ;"))
                out = out[:i] + new + out[b + 1:]
                i += len(pre) + 1
                continue
            if w[-4:] == [".", "trs", "(", ")"] and "(" in w[:-4]:
                pre = code(lex("let g_trs =")) + inner[:-4] + code(lex(";"))
                out = out[:i] + pre + out[i:j + 1] + code(lex("g_trs.trs()")) + out[b:]
                i += len(pre) + 1
                continue
        i += 1
    return out


def loops(toks):
    """(keyword index, body open index) of each loop in source order"""
    res = []
    i = 0
    while i < len(toks):
        k, t = toks[i]
        if k == "id" and t in ("for", "while", "loop") and (i + 1 >= len(toks) or toks[i + 1][1] != "<"):
            j = i + 1
            while toks[j][1] != "{":
                if toks[j][1] in ("(", "["):
                    j = match(toks, j)
                elif toks[j][1] == "unsafe":
                    pass
                j += 1
            # `for x in { block }`/`unsafe { .. }` heads: the body is the second brace
            if t == "for" and toks[j - 1][1] == "in":
                j = match(toks, j) + 1
                while toks[j][1] != "{":
                    if toks[j][1] in ("(", "["):
                        j = match(toks, j)
                    j += 1
            res.append((i, j))
        i += 1
    return res


def for_continue(toks):
    """for I in A..B { .. continue .. }  ->  let mut nx_I = A; let end_I = B; while nx_I < end_I { let I = nx_I; nx_I += 1; .. }
    for X in E { .. continue .. } (E ends in .trs()/.iter()) -> index loop over E with let X = &E[nx_X]
    (Verus has no `continue` in `for`)"""
    out = toks
    for n in range(len(loops(out))):
        ls = loops(out)
        i, j = ls[n]
        if out[i][1] != "for":
            continue
        e = match(out, j)
        inner = [(a, match(out, b)) for a, b in ls if a > i and a < e]
        if not any(out[c] == ("id", "continue") and not any(a < c < b for a, b in inner) for c in range(j, e)):
            continue
        mu = ""
        if out[i + 1][1] == "mut":
            mu = "mut "
            out = out[:i + 1] + out[i + 2:]
            j -= 1
        if out[i + 2][1] != "in":
            if mu:
                out = out[:i + 1] + [("id", "mut")] + out[i + 1:]
            continue
        x = out[i + 1][1]
        head = out[i + 3:j]
        w = [t[1] for t in head]
        d = 0
        dots = None
        for c, t in enumerate(w):
            d += t in OPEN
            d -= t in (")", "]", "}")
            if d == 0 and t == "..":
                dots = c
        L = lambda z: code(lex(z))
        if dots is not None:
            A, B = head[:dots], head[dots + 1:]
            new = L("let end_%s =" % x) + B + L("; let mut nx_%s =" % x) + A + L("; while nx_%s < end_%s { let %s%s = nx_%s ; nx_%s += 1 ;" % (x, x, mu, x, x, x))
        elif w[-4:] == [".", "states_range", "(", ")"]:
            new = L("let rg_%s =" % x) + head + L("; let end_%s = rg_%s . end ; let mut nx_%s = rg_%s . start ; while nx_%s < end_%s { let %s%s = nx_%s ; nx_%s += 1 ;" % (x, x, x, x, x, x, mu, x, x, x))
        else:
            if w[-4:] == [".", "iter", "(", ")"]:
                head = head[:-4]
            elif w[-4:] != [".", "trs", "(", ")"]:
                continue
            new = L("let mut nx_%s : usize = 0 ; while nx_%s <" % (x, x)) + head + L(". len ( ) { let %s = &" % x) + head + L("[ nx_%s ] ; nx_%s += 1 ;" % (x, x))
        out = out[:i] + new + out[j + 1:]
    return out


def stmt_bounds(toks, a, b):
    """start and end (exclusive) of the innermost statement containing tokens a..b"""
    s = a
    d = 0
    while s > 0:
        x = toks[s - 1]
        if x[0] == "ghost":
            if d == 0:
                break
            s -= 1
            continue
        if x[1] in CLOSE and x[0] == "op":
            if x[1] == "}" and d == 0:
                break
            d += 1
        elif x[1] in OPEN and x[0] == "op":
            if d == 0:
                if x[1] == "{":
                    break
            else:
                d -= 1
        elif x[1] == ";" and d == 0:
            break
        s -= 1
    e = b
    while e < len(toks):
        x = toks[e]
        if x[1] in OPEN and x[0] == "op":
            m = match(toks, e)
            if x[1] == "{" and toks[s][1] in ("if", "for", "while", "loop", "match", "{"):
                e = m + 1
                if e < len(toks) and toks[e][1] == "else":
                    continue
                break
            e = m + 1
            continue
        if x[1] == ";":
            e += 1
            break
        if x[1] == "}":
            break
        e += 1
    return s, e


def tail_start(toks):
    """index of the first token of the tail expression of the block toks = { ... }, or -1"""
    i, last, closed = 1, -1, True
    n = len(toks) - 1
    while i < n:
        st = i
        blocky = toks[i][1] in ("if", "for", "while", "loop", "match", "{")
        done = False
        while i < n:
            x = toks[i]
            if x[0] == "op" and x[1] in OPEN:
                m = match(toks, i)
                i = m + 1
                if blocky and x[1] == "{":
                    if i < n and toks[i][1] == "else":
                        continue
                    if toks[st][1] == "match" or True:
                        if i < n and toks[i][1] in (".", "?"):
                            blocky = False
                            continue
                        if i < n and toks[i][1] == ";":
                            i += 1
                            done = True
                        break
                continue
            if x[1] == ";" and x[0] == "op":
                i += 1
                done = True
                break
            i += 1
        last, closed = st, done
    return -1 if last < 0 or closed else last


def inline_macro(file, name, body):
    """NAME!(a, b); -> the text of the one arm of macro_rules! NAME with its parameters replaced"""
    toks = source(file)
    a = seq_find(toks, ["macro_rules", "!", name])
    if a < 0:
        raise Lost("macro %s not found" % name)
    e = match(toks, a + 3)
    pe = match(toks, a + 4)
    par = [toks[i + 1][1] for i in range(a + 4, pe) if toks[i][1] == "$"]
    if toks[pe + 1][1] != "=>":
        raise Lost("macro %s: unknown form" % name)
    be = match(toks, pe + 2)
    if any(t[1] == "=>" for t in toks[be:e]):
        raise Lost("macro %s has several arms" % name)
    text = toks[pe + 3:be]
    while True:
        p = seq_find(body, [name, "!", "("])
        if p < 0:
            return body
        q = match(body, p + 2)
        args, d, cur = [], 0, []
        for t in body[p + 3:q]:
            d += t[1] in OPEN
            d -= t[1] in CLOSE
            if t[1] == "," and d == 0:
                args.append(cur)
                cur = []
            else:
                cur.append(t)
        args.append(cur)
        if len(args) != len(par):
            raise Lost("macro %s: arguments" % name)
        new, i = [], 0
        while i < len(text):
            if text[i][1] == "$" and text[i + 1][1] in par:
                new += args[par.index(text[i + 1][1])]
                i += 2
            else:
                new.append(text[i])
                i += 1
        q += 1 if q + 1 < len(body) and body[q + 1][1] == ";" else 0
        body = body[:p] + new + body[q + 1:]


def parse_fn_block(lines):
    secs = [("contract", "", [])]
    for ln in lines:
        st = ln.strip()
        if st.startswith("@"):
            w = st[1:].split(None, 1)
            secs.append((w[0], w[1] if len(w) > 1 else "", []))
        else:
            secs[-1][2].append(ln)
    return secs


BT = re.compile(r"`([^`]*)`")


class Out:
    skip = ()
    vacuity = False

    def __init__(self):
        self.text = []
        self.fns = []
        self.subs = []
        self.types = []


def emit_fn(head, lines, out):
    """one function; a function in out.skip keeps its contract but loses its body (undecided this run)"""
    parts = [p.strip() for p in head.split("::")]
    lab = (parts[1] + "::" if len(parts) == 3 else "") + parts[-1].split()[0]
    try:
        emit_fn_(head, lines, out, lab in out.skip)
    except Lost as x:
        if lab in out.skip:
            raise Lost("%s (and its signature)" % x)
        x.label = lab
        raise


def emit_fn_(head, lines, out, skipped):
    parts = [p.strip() for p in head.split("::")]
    opts = {}
    last = parts[-1].split()
    for o in last[1:]:
        if "=" in o:
            k, v = o.split("=", 1)
            opts[k] = v
    parts[-1] = last[0]
    file = parts[0]
    impl = parts[1] if len(parts) == 3 else ""
    name = parts[-1]
    sig, body = get_fn(file, impl, name)
    for m in filter(None, opts.get("inline", "").split(",")):
        body = inline_macro(file, m, body)
        out.subs.append("%s: the calls of the macro %s! of the same file are replaced by its text" % (name, m))
    log = []
    secs = parse_fn_block(lines)
    sig = rewrite(sig, log)
    body = for_continue(for_heads(rewrite(body, log)))
    contract = ""
    ghosts = []
    for kind, arg, txt in secs:
        if kind == "sub":
            m = BT.findall(arg)
            pat = [t for _, t in code(lex(m[0]))]
            rep = code(lex(m[1]))
            n = 0
            for which in ("sig", "body"):
                tk = sig if which == "sig" else body
                while True:
                    p = seq_find(tk, pat)
                    if p < 0:
                        break
                    # guard against a replacement that contains its own pattern
                    tk = tk[:p] + [("mark", "\0")] + rep + [("mark", "\1")] + tk[p + len(pat):]
                    head_, tail_ = tk[:p], tk[p:]
                    e = next(i for i, t in enumerate(tail_) if t == ("mark", "\1"))
                    done = [(("done_" + k) if False else k, t) for k, t in tail_[1:e]]
                    # protect by a private kind
                    tk = head_ + [("P" + k, "\2" + t) for k, t in done] + tail_[e + 1:]
                    n += 1
                if which == "sig":
                    sig = tk
                else:
                    body = tk
            sig = [(k[1:], t[1:]) if t.startswith("\2") else (k, t) for k, t in sig]
            body = [(k[1:], t[1:]) if t.startswith("\2") else (k, t) for k, t in body]
            if n == 0 and "#opt" not in arg and not skipped:
                raise Lost("%s: rewrite anchor `%s` not found" % (name, m[0]))
            if n:
                out.subs.append("%s: `%s` => `%s`" % (name, m[0], m[1]))
        elif kind == "contract":
            contract = "\n".join(txt)
        else:
            ghosts.append((kind, arg, "\n".join(txt)))
    # name the result
    sig = [t for t in sig]
    r = opts.get("ret", "r")
    ang, plist = 0, None
    for i, t in enumerate(sig):  # the parameter list: the first parenthesis outside the generics
        if t[1] == "<":
            ang += 1
        elif t[1] in (">", ">>"):
            ang -= len(t[1])
        elif t[1] == "(" and ang == 0 and i >= 2 and sig[i - 1][1] != "pub":
            plist = match(sig, i)
            break
    for i, t in enumerate(sig):
        if t[1] == "->" and (plist is None or i > plist):
            depth_ok = sum(x[1] == "(" for x in sig[:i]) == sum(x[1] == ")" for x in sig[:i])
            if not depth_ok:
                continue
            w = next((j for j in range(i, len(sig)) if sig[j][1] == "where"), len(sig))
            sig = sig[:i + 1] + [("op", "("), ("id", r), ("op", ":")] + sig[i + 1:w] + [("op", ")")] + sig[w:]
            break
    if "rename" in opts:
        p = seq_find(sig, ["fn", name])
        sig[p + 1] = ("id", opts["rename"])
    if skipped:
        ghosts = []
        body = code(lex("{ unimplemented!() }"))
        opts.pop("loops", None)
    inserts = []  # (index, priority, ghost token or plain token list)
    lp = loops(body)
    if "loops" in opts and int(opts["loops"]) != len(lp):
        raise Lost("%s: %d loops instead of %s" % (name, len(lp), opts["loops"]))
    for kind, arg, txt in ghosts:
        if kind in ("loop", "loop_start", "loop_end", "before_loop", "after_loop"):
            a = arg.split()
            k = int(a[0])
            if k >= len(lp):
                raise Lost("%s: loop %d is gone" % (name, k))
            kw, br = lp[k]
            for o in a[1:]:
                if o.startswith("kind="):
                    if body[kw][1] != o[5:]:
                        raise Lost("%s: loop %d is no longer a %s loop" % (name, k, o[5:]))
                if o.startswith("it="):
                    if body[kw][1] != "for":
                        raise Lost("%s: loop %d is no longer a for loop" % (name, k))
                    j = kw
                    while body[j][1] != "in":
                        if body[j][1] in OPEN:
                            j = match(body, j)
                        j += 1
                    inserts.append((j + 1, [("id", o[3:]), ("op", ":")]))
            if kind == "loop":
                inserts.append((br, [("ghost", txt)]))
            elif kind == "loop_start":
                inserts.append((br + 1, [("ghost", txt)]))
            elif kind == "loop_end":
                e_ = match(body, br)  # a last expression of type () becomes a statement
                inserts.append((e_, ([] if body[e_ - 1][1] in (";", "}", "{") else [("op", ";")]) + [("ghost", txt)]))
            elif kind == "before_loop":
                s, _ = stmt_bounds(body, kw, kw + 1)
                inserts.append((s, [("ghost", txt)]))
            else:
                inserts.append((match(body, br) + 1, [("ghost", txt)]))
        elif kind == "start":
            inserts.append((1, [("ghost", txt)]))
        elif kind == "tail":
            ts = tail_start(body)
            if ts < 0:
                inserts.append((len(body) - 1, [("ghost", txt)]))
            else:
                inserts.append((ts, code(lex("let r__ ="))))
                inserts.append((len(body) - 1, [("op", ";"), ("ghost", txt), ("id", "r__")]))
        elif kind == "end":
            inserts.append((len(body) - 1, [("ghost", txt)]))
        elif kind in ("before", "after"):
            m = BT.findall(arg)
            pat = [t for _, t in code(lex(m[0]))]
            nth = re.search(r"#(\d+)", arg[arg.rfind("`"):])
            p = seq_find(body, pat, int(nth.group(1)) if nth else 0)
            if p < 0:
                raise Lost("%s: anchor `%s` not found" % (name, m[0]))
            s, e = stmt_bounds(body, p, p + len(pat))
            inserts.append((s if kind == "before" else e, [("ghost", txt)]))
        else:
            raise Exception("unknown section @" + kind)
    if out.vacuity and not skipped:
        inserts.append((1, [("ghost", "assert(false); // vacuity_probe")]))
    # at one place, the text of a later section comes after that of an earlier one; `let r__ =` comes last
    for pos, ins in sorted(reversed(inserts), key=lambda x: (-x[0], x[1][0][1] != "let")):
        body = body[:pos] + ins + body[pos:]
    where = ""
    attrs = "#[verifier::external_body]\n" if skipped else ""
    if "rlimit" in opts:
        attrs += "#[verifier::rlimit(%s)]\n" % opts["rlimit"]
    if "spinoff" in last:
        attrs += "#[verifier::spinoff_prover]\n"
    if "nodecreases" in last:
        attrs += "#[verifier::exec_allows_no_decreases_clause]\n"
    if "noisolation" in last:
        attrs += "#[verifier::loop_isolation(false)]\n"
    if " for " not in impl and not impl.startswith("trait") and sig[0][1] != "pub" and "nopub" not in last:
        sig = [("id", "pub")] + sig
    label = (impl + "::" if impl else "") + name
    out.text.append("/*@@FN %s @@*/" % label)
    out.text.append(attrs + render(sig) + "\n" + contract + "\n" + render(body))
    out.text.append("/*@@END@@*/")
    out.fns.append({"fn": label, "unit": getattr(out, "cur", ""), "file": "rustfst/src/" + file, "loops": len(lp)})


def expand(unit, out, seen, params=None):
    p = os.path.join(UNITS, unit + ".vrs")
    lines = open(p).read().split("\n")
    i = 0
    while i < len(lines):
        st = lines[i].strip()
        if st.startswith("//@use "):
            u = st[7:].strip()
            if u not in seen:
                seen.add(u)
                module(u, out, seen)
        elif st.startswith("//@type "):
            f, d = [x.strip() for x in st[8:].split("::", 1)]
            d = d.split()
            toks = pub_fields(strip_attrs(get_type(f, d[0], d[1])))
            tt = render(toks)
            for o in d[2:]:
                if o.startswith("drop="):
                    # drop one field
                    pass
            j = i + 1
            if j < len(lines) and lines[j].strip().startswith("//@tgen "):
                # the generic parameters and where clause of a struct with named fields, given anew
                g = render(code(lex(lines[j].strip()[8:])))
                h = [render([t]).strip() if not isinstance(t, str) else t for t in toks]
                k = h.index("{"); n = h.index(d[1])
                tt = render(toks[:n + 1]) + " " + g + " " + render(toks[k:])
                out.subs.append("type %s: generic parameters and bounds => `%s`" % (d[1], g))
                j += 1
            while j < len(lines) and lines[j].strip().startswith("//@tsub "):
                m = BT.findall(lines[j])
                a, b = [render(code(lex(x))) for x in m[:2]]
                if a not in tt:
                    raise Lost("type %s: `%s` not found" % (d[1], m[0]))
                tt = tt.replace(a, b)
                out.subs.append("type %s: `%s` => `%s`" % (d[1], m[0], m[1]))
                j += 1
            i = j - 1
            out.text.append(tt)
            out.types.append("%s %s (rustfst/src/%s)" % (d[0], d[1], f))
        elif st.startswith("//@const "):
            # a named constant (const or static), its type and value as written
            f, d = [x.strip() for x in st[9:].split("::", 1)]
            toks = source(f)
            a = max(seq_find(toks, ["const", d, ":"]), seq_find(toks, ["static", d, ":"]))
            if a < 0:
                raise Lost("constant %s not found" % d)
            e = a
            while toks[e][1] != ";":
                e += 1
            out.text.append("pub const " + render(toks[a + 1:e + 1]))
        elif st.startswith("//@macro "):
            f, d = [x.strip() for x in st[9:].split("::", 1)]
            toks = source(f)
            a = seq_find(toks, ["macro_rules", "!", d])
            if a < 0:
                raise Lost("macro %s not found" % d)
            out.text.append(render(toks[a:match(toks, a + 3) + 1]))
        elif st.startswith("//@bitflags "):
            f, d = [x.strip() for x in st[12:].split("::", 1)]
            toks = source(f)
            a = seq_find(toks, ["bitflags", "!"])
            if a < 0:
                raise Lost("bitflags! block not found")
            e = match(toks, a + 2)
            seg = toks[a:e]
            res = []
            for k in range(len(seg) - 4):
                if seg[k][1] == "const" and seg[k + 2][1] == "=":
                    v = seg[k + 3][1]
                    if seg[k + 4][1] != ";":
                        # `= CONST;` or an expression
                        v = " ".join(x[1] for x in seg[k + 3:seg.index(("op", ";"), k)])
                    n = seg[k + 1][1]
                    if not re.match(r"^[0-9]", v):
                        q = seq_find(toks, ["const", v, ":"])
                        if q < 0:
                            raise Lost("bit constant %s not found" % v)
                        v = toks[q + 5][1]
                    res.append((n, int(v.replace("_", "").replace("u64", ""), 0)))
            out.text.append(d_bitflags(d, res))
        elif st.startswith("//@fn "):
            j = i + 1
            while lines[j].strip() != "//@end":
                j += 1
            emit_fn(st[6:], lines[i + 1:j], out)
            i = j
        else:
            out.text.append(lines[i])
        i += 1


def d_bitflags(name, consts):
    """each named flag as an associated constant with its bit number; the link between the two is proved by bit-vector lemmas"""
    o = []
    lem = []
    for n, v in consts:
        if v & (v - 1) or v == 0:
            raise Lost("flag %s is not a single bit" % n)
        b = v.bit_length() - 1
        o.append("pub spec const B_%s: int = %d;" % (n, b))
        lem.append("pub broadcast proof fn bit_%s(i: int) ensures #[trigger] hasb(%du64, i) <==> i == %d { reveal(hasb); if 0 <= i < 64 { let j = i as u64; assert((%du64 & (1u64 << j)) != 0 <==> j == %d) by (bit_vector) requires j < 64; } }" % (n, v, b, v, b))
        lem.append("pub broadcast proof fn sbit_%s(p: u64) ensures #[trigger] subb(%du64, p) <==> hasb(p, %d) { reveal(subb); bit_%s(%d); if hasb(p, %d) { assert forall|i: int| hasb(%du64, i) implies #[trigger] hasb(p, i) by { bit_%s(i); } } }" % (n, v, b, n, b, b, v, n))
    o.append("impl %s {" % name)
    for n, v in consts:
        o.append("  pub const %s: %s = %s { bits: %du64 };" % (n, name, name, v))
    o.append("}")
    o += lem
    o.append("pub broadcast group group_bits { " + ", ".join("bit_" + n + ", sbit_" + n for n, _ in consts) + ", has_or, has_and, has_not, has_empty, has_mask, sub_or }")
    return "\n".join(o)


def module(unit, out, seen):
    """the units a unit uses come first, at the top level; each unit is a module of its own"""
    p = os.path.join(UNITS, unit + ".vrs")
    for ln in open(p).read().split("\n"):
        if ln.startswith("//@use "):
            u = ln[7:].strip()
            if u not in seen:
                seen.add(u)
                module(u, out, seen)
    out.text.append("pub mod u_%s {\n#[allow(unused_imports)] use super::*;" % unit)
    out.cur = unit
    expand(unit, out, seen)
    out.text.append("}\n#[allow(unused_imports)] pub use u_%s::*;" % unit)


HEADER = """#![feature(clone_to_uninit)]
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_mut, unused_variables, unused_parens, non_snake_case, unused_braces, unused_assignments, non_camel_case_types, unreachable_code, unused_macros, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use std::sync::Arc;
use std::ops::Range;
use std::mem::swap; use std::marker::PhantomData;
use std::collections::{HashMap, HashSet, VecDeque, BTreeMap};
use std::cmp::Ordering;
use core::ops::{BitOr, BitAnd, Not, BitOrAssign, BitAndAssign};
"""


def build(unit, skip=(), vacuity=False):
    out = Out()
    out.skip = skip
    out.vacuity = vacuity
    out.text.append(HEADER)
    module(unit, out, {unit})
    out.text.append("fn main() {}")
    return out


if __name__ == "__main__":
    o = build(sys.argv[1])
    print("\n".join(o.text))
