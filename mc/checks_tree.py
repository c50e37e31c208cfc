"""C04-C11, C13, C14: what the tree contains"""
import itertools
import unicodedata

from mc import boot  # noqa: F401
from fcsql import parser as fp
from fcsql.parser import Operator, QueryParser, QueryParserException

from mc import impl, model as M, spaces as S
from mc.core import Violation, require
from mc.model import Cfg, N

QUERY_KINDS = {"segment", "group", "sequence", "disjunction", "within"}
EXPR_KINDS = {"cond", "wildcard", "exgroup", "not", "and", "or"}


def fold(n, keep):
    """project a tree on the facts of one property: keep(node) -> attrs to keep, or None to drop the attrs"""
    return N(n.kind, keep(n), tuple(fold(c, keep) for c in n.children), None)


def ref(text, cfg=M.DEFAULT):
    return M.RefParser(text, cfg).query()


def real(text, **kw):
    return impl.tree(QueryParser(**kw).parse(text), spans=False)


def compare(text, keep, what, cut=None):
    want = ref(text)
    if cut:
        want = cut(want)
    want = fold(want, keep)
    for loc in (True, False):
        got = real(text, enableSourceLocations=loc)
        if cut:
            got = cut(got)
        got = fold(got, keep)
        impl.same(got, want, text, f"{what} ({'with' if loc else 'without'} locations)")
    return got


def configured(name, op, form, loc):
    return QueryParser(default_identifier=name, default_operator=dict(CFG_OPS)[op], unicode_normalization_form=form, enableSourceLocations=loc)


def in_every_config(text, pick, what):
    """facts of a tree, with every way to set up the parser"""
    out = set()
    for c in S.CONFIGS:
        want = pick(ref(text, Cfg(*c[:3])))
        got = pick(impl.tree(configured(*c).parse(text), spans=False))
        require(got == want, "%r parsed as set up by %s: %s\n  %s\nexpected\n  %s", text, c, what, got, want)
        out.add(repr(want))
    return {"obs": (text, len(out)), "traces": len(S.CONFIGS)}


# ---------------------------------------------------------------- C04
def keep04(n):
    # identity of the token: pattern of a condition
    return (n.attrs[3],) if n.kind == "cond" else ()


def cut04(n):
    """query level: expressions inside a token reduced to their conditions in order"""
    if n.kind == "segment":
        leaves = tuple(c for c in M.walk(n) if c.kind in ("cond", "wildcard"))
        return N("segment", (), tuple(N(c.kind, c.attrs, (), None) for c in leaves), None)
    return N(n.kind, n.attrs, tuple(cut04(c) for c in n.children), None)


def c04_words(words):
    return {"obs": compare(" ".join(words), keep04, "query structure", cut04), "trans": len(words)}


def c04_text(text):
    return {"obs": compare(text, keep04, "query structure", cut04)}


def c04_dim(item):
    return {"obs": compare(S.dimension_query(item), keep04, "query structure", cut04)}


def deep_queries(d):
    """all nestings of groups up to depth d with one or two elements per level"""
    shapes = ['"a"', "[]"]
    out = list(shapes)
    for _ in range(d):
        nxt = []
        for s in shapes:
            for f in ("(%s)", "(%s)+", '(%s "x")', '("x" %s){2}', '(%s | "x")', '("x" | %s)?', '("w" "x" | %s "y" | "z")'):
                nxt.append(f % s)
        out += nxt
        shapes = nxt
    return out


def c04_cfg(text):
    return in_every_config(text, lambda t: fold(cut04(t), keep04), "query structure")


def C04(ctx):
    n = ctx.pick(6, 7)
    ctx.run("all query shapes", c04_words, [w for s in S.query_sentences(n) for w in (tuple(S.query_words(s)), tuple(S.same_words(s)))], f"<= {n} macro words, all elements different and all alike")
    inner = [tuple(S.expr_words(s)) for s in S.expr_sentences(5)]
    ctx.run("expressions inside query shapes", c04_words,
            [t for w in inner for t in (("(",) + w + ("|", '"z"', ")") + w, ('"y"',) + w + ("?", "|") + w + ("within", "u"))], "expressions <= 5 words")
    ctx.run("nested groups", c04_text, deep_queries(ctx.pick(3, 4)), "depth <= 3 (4), 7 contexts per level")
    ctx.run("features together", c04_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c04_cfg, S.features(ctx.pick(2, 3)), "%d configurations x every choice of up to %d of 12 features away from three base queries" % (len(S.CONFIGS), ctx.pick(2, 3)))
    ctx.run("fragments composed", c04_text, [t for k in (2, 3) for t in S.composed_queries(k)], "every pair and triple of 13 fragments, every joint")
    ctx.run("scopes over alternatives", c04_text,
            [f"{q} within {s}" for s in M.SCOPES for q in ('"a"', '"a" | "b"', '"a" "b" | "c"', '("a")*', '[] | "b" | ("c" "d")')], "10 scopes x 5 queries")
    dims = ["sequence", "alternatives", "segments", "wildcards", "query-groups", "repeated-groups", "alternative-groups", "sequence-of-groups"]
    ctx.run("sizes", c04_dim, S.dimension_items(dims, ctx.pick(130, None)), "number of elements / nesting depth")
    ctx.run("big sizes", c04_dim, S.big_items(ctx.pick(1025, 5001), 0, [d for d in dims if d in S.COUNTS]), "number of elements around powers of two and round numbers")


# ---------------------------------------------------------------- C05
def keep05(n):
    return (n.attrs[0], n.attrs[1]) if n.kind == "cond" else ()


def exprs_of(t):
    """the expressions of all token segments in text order"""
    return [n.children for n in M.walk(t) if n.kind == "segment"]


def c05_text(text):
    want = [tuple(fold(c, keep05) for c in ch) for ch in exprs_of(ref(text))]
    for loc in (True, False):
        got = [tuple(fold(c, keep05) for c in ch) for ch in exprs_of(real(text, enableSourceLocations=loc))]
        if want != got:
            break
    if want != got:
        raise Violation(f"Boolean structure differs for {text!r}\n  expected {[list(map(impl.fmt, w)) for w in want]}\n  observed {[list(map(impl.fmt, w)) for w in got]}")
    return {"obs": tuple(got)}


def c05_words(words):
    return dict(c05_text(" ".join(words)), trans=len(words))


def c05_dim(item):
    return c05_text(S.dimension_query(item))


def c05_cfg(text):
    return in_every_config(text, lambda t: [tuple(fold(c, lambda n: n.attrs[:2] if n.kind == "cond" else ()) for c in ch) for ch in exprs_of(t)], "Boolean structure")


def C05(ctx):
    n = ctx.pick(10, 12)
    ctx.run("all expression shapes", c05_words, [w for s in S.expr_sentences(n) for w in (tuple(S.expr_words(s)), tuple(S.same_words(s)))], f"<= {n} words over condition ( ) | & !, all conditions different and all alike")
    ctx.run("expression shapes, compact, in contexts", c05_text,
            [f % S.layout(S.expr_words(s), "compact") for s in S.expr_sentences(7) for f in ('("x" %s)+', "%s{2,} within s")], "<= 7 words x 2")
    two = [S.layout(S.expr_words(s), "compact") for s in S.expr_sentences(4)] + ["[]"]
    ctx.run("pairs of tokens", c05_text, [a + b for a in two for b in two] + [a + "|" + b for a in two for b in two], "<= 4 words each")
    ctx.run("features together", c05_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c05_cfg, S.features(ctx.pick(2, 3)), "%d configurations x every choice of up to %d of 12 features away from three base queries" % (len(S.CONFIGS), ctx.pick(2, 3)))
    mixes = []
    k = ctx.pick(5, 6)
    for m in range(2, k + 1):
        for ops in itertools.product("&|", repeat=m - 1):
            for nots in itertools.product(("", "!"), repeat=m):
                if sum(map(bool, nots)) > 2:
                    continue
                s = "".join((ops[i - 1] if i else "") + nots[i] + f'a{i}="v"' for i in range(m))
                mixes.append("[" + s + "]")
    ctx.run("fragments composed", c05_text, [t for k in (2, 3) for t in S.composed_expressions(k)], "every pair and triple of 13 fragments, every joint")
    ctx.run("flat and/or/not mixes", c05_text, mixes, f"<= {k} conditions, every operator choice, <= 2 negations")
    dims = ["or", "and", "and-in-or", "and-not", "or-not", "negations", "expression-groups", "not-groups"]
    ctx.run("sizes", c05_dim, S.dimension_items(dims, ctx.pick(66, None)), "operand count / nesting depth")
    ctx.run("big sizes", c05_dim, S.big_items(ctx.pick(1025, 5001), 0, [d for d in dims if d in S.COUNTS]), "operand count around powers of two and round numbers")


# ---------------------------------------------------------------- C06
NAMES_CORE = (
    ["a", "Z", "pos", "text", "word", "lemma", "x-my", "a-b-c", "a--b", "a1", "a-1", "A0Z", "n123456789"]
    + ["within", "Within", "withinx", "with"]
    + list(M.SCOPES)
    + ["sentences", "S", "texts", "sentence-1"]
    + ["i", "I", "c", "C", "l", "d", "id", "IiCcld", "lid", "dd", "ix", "l-d"]
)


def conds(t):
    return [n.attrs for n in M.walk(t) if n.kind == "cond"]


def c06_one(item):
    name, qual = item
    n = 0
    for op, want in (("=", "Eq"), ("!=", "Ne")):
        w = f"{qual}:{name}" if qual else name
        for text in (f'[{w} {op} "v"]', f"('x' | [!({w}{op}'v'/l)]+) within s"):
            got = [c[:4] for c in conds(real(text)) if c[3] == "v"]
            require(got == [(qual, name, want, "v")], "%r: condition decoded as %r", text, got)
            n += 1
    w = f"{qual} : {name}" if qual else name
    text = f'[{w}\n=\t"v"]'
    got = [c[:4] for c in conds(real(text))]
    require(got == [(qual, name, "Eq", "v")], "%r: condition decoded as %r", text, got)
    return {"obs": item, "traces": n + 1, "trans": n + 1}


def c06_feature(text):
    """names, qualifiers, operators, patterns and scope of a query with many features"""
    want = ref(text)
    for loc in (True, False):
        got = real(text, enableSourceLocations=loc)
        a, b = [c[:4] for c in conds(got)], [c[:4] for c in conds(want)]
        require(a == b, "%r: conditions decoded as\n  %r, expected\n  %r", text, a, b)
        a, b = ([x.attrs for x in M.walk(t) if x.kind == "within"] for t in (got, want))
        require(a == b, "%r: scope %r, expected %r", text, a, b)
    return {"obs": (text, len(text)), "traces": 2}


def c06_many(item):
    """several conditions in one query: nothing leaks from one to another"""
    shape, feats = item
    for alike in (False, True):
        parts, want = [], []
        for k, (q, o, f) in enumerate(feats):
            j = "" if alike else k
            parts.append((f"q{j}:" if q else "") + f"n{j}" + ("!=" if o else "=") + f'"v{j}"' + ("/" + "idC"[k % 3] if f else ""))
            want.append((f"q{j}" if q else None, f"n{j}", "Ne" if o else "Eq", f"v{j}"))
        text = shape
        for p in parts:
            text = text.replace("@", p, 1)
        for loc in (True, False):
            got = [c[:4] for c in conds(real(text, enableSourceLocations=loc)) if c[1] != "text"]
            require(got == want, "%r: conditions decoded as\n  %r, expected\n  %r", text, got, want)
    return {"obs": item, "traces": 4}


def c06_scope(item):
    q, s = item
    for text in (f"{q} within {s}", f"{q}\nwithin\t{s} "):
        t = real(text)
        got = [n.attrs for n in M.walk(t) if n.kind == "scope"]
        require(got == [(M.SCOPES[s],)], "%r: scope decoded as %r", text, got)
    return {"obs": (got, q), "traces": 2}


def c06_noscope(text):
    require(not impl.accepts(text), "%r accepted although it has no valid scope", text)
    return {"obs": text}


def c06_cfg(text):
    return in_every_config(text, lambda t: ([c[:4] for c in conds(t)], [x.attrs for x in M.walk(t) if x.kind in ("within", "scope")]), "conditions and scope")


def C06(ctx):
    names = list(dict.fromkeys(NAMES_CORE + S.mined().names()))
    core = NAMES_CORE if ctx.tier == "quick" else names
    quals = [None] + (NAMES_CORE[:13:3] + NAMES_CORE[13:] if ctx.tier == "quick" else names)
    items = [(n, q) for n in core for q in quals]
    items += [(n, q) for n in names for q in (None, "q", "x-q", n)] + [("n", q) for q in names]
    ctx.run("names x qualifiers x operators x places", c06_one, list(dict.fromkeys(items)), f"{len(core)} names x {len(quals)} qualifiers, {len(names)} names with 4 qualifiers")
    shapes2 = ["[@ & @]", "[@ | @]", "[@][@]", "[@] | [@]", "[!(@) | !@]", "([@]+ 'p' [@])"]
    shapes3 = ["[@ & @ | @]", "[@ | @ & @]", "[@][@ | @]", "([@] | 'p' [@ & !@])", "[(@ | @) & @]"]
    f = list(itertools.product((0, 1), repeat=3))
    items = [(s, p) for s in shapes2 for p in itertools.product(f, repeat=2)]
    items += [(s, p) for s in shapes3 for p in itertools.product(f, repeat=3)]
    ctx.run("several conditions: qualifier x operator x flag presence", c06_many, items, "2 and 3 conditions, 11 shapes")
    lens = [x for x in S.DIMENSIONS if x in ("name-length", "qualifier-length")]
    ctx.run("lengths of names", c06_len, S.dimension_items(lens, ctx.pick(300, None)) + [(d, n) for d in lens for n in S.big_sizes(ctx.pick(66000, 300000))], "up to 40, and around powers of two")
    ctx.run("scopes", c06_scope, [(q, s) for s in M.SCOPES for q in ('"a"', "[]", '[s="t"]', '("a" | "text")+', '"within" "s"', '[within = "u"]{2}')], "10 spellings x 6 queries")
    ctx.run("features together", c06_feature, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c06_cfg, S.features(ctx.pick(2, 3)), "%d configurations x every choice of up to %d of 12 features away from three base queries" % (len(S.CONFIGS), ctx.pick(2, 3)))
    bad = set()
    for s in list(M.SCOPES) + ["within"]:
        for v in (s.upper(), s.capitalize(), s + "s", s + "x", s[:-1], s + "-1", s + s, '"' + s + '"', s + " " + s, s + "1", s + "&"):
            t = f'"a" within {v}'
            if M.status(t)[0] != "ok":
                bad.add(t)
    ctx.run("near-miss scopes", c06_noscope, sorted(bad), "")


def c06_len(item):
    text = S.dimension_query(item)
    require(conds(real(text)) == conds(ref(text)), "name altered: %r", text)
    return {"obs": item}


# ---------------------------------------------------------------- C07
UNITS = (
    ["a", "Z", "0", " ", "\n", "\t", "\r", "\u00a0", "\u2028", "\x00", "\x7f", "\ufeff", "\u00e9", "e\u0301", "\U0001f600", "\U0010ffff", "\ud800", "\ud83d", "\ude00"]
    + list(".^$*+?(){}[]|/&!,=:<>#%-_~`@;")
    + ["\\" + c for c in "\\'\"nt.^$*+?(){}[]|"]
    + ["\\x41", "\\x0a", "\\xFf", "\\u0041", "\\u0301", "\\uD83D", "\\uDE00", "\\U0001F600", "\\U0000000A", "\\U0010fffF", "\\x5C", "\\u0022"]
)


def raw_real(text):
    """pattern of the last condition with normalisation off"""
    return conds(real(text, unicode_normalization_form=None))[-1][3]


def c07_units(units):
    body = "".join(units)
    n = 0
    for q, other in ('"', "'"), ("'", '"'):
        for b in (body, other + body, body + other):
            want = M.decode(q + b + q)
            got = raw_real(q + b + q)
            require(got == want, "%r decoded to %r, expected %r", q + b + q, got, want)
            n += 1
    return {"obs": want, "traces": n, "trans": len(units)}


def c07_feature(text):
    got = [c[3] for c in conds(real(text, unicode_normalization_form=None))]
    want = [c[3] for c in conds(ref(text, Cfg("text", "Eq", None)))]
    require(got == want, "%r: patterns %r, expected %r", text, got, want)
    return {"obs": (text, tuple(got))}


def c07_place(item):
    body, k = item
    tmpl = ['[a = %s]', '[a != %s/i]', '"x" | ("y" [b:c = %s & d = "z"])+', "%s/I{2} within s", '%s "x"'][k]
    n = 0
    for q in "\"'":
        s = q + body + q
        text = tmpl % s
        want = M.decode(s)
        got = [c[3] for c in conds(real(text, unicode_normalization_form=None))]
        require(got.count(want) >= 1 and len(got) == len(conds(ref(text))), "%r: patterns %r, expected one to be %r", text, got, want)
        n += 1
    return {"obs": (want, k), "traces": n}


def c07_block(item):
    """a block of code points kept verbatim, and spelled by each hex escape"""
    lo, hi, mode = item
    cps = [c for c in range(lo, hi) if mode != "raw" or chr(c) not in "\"'\\"]
    if mode == "raw":
        body = "".join(map(chr, cps))
    else:
        body = "".join({"x": "\\x%02x", "u": "\\u%04X", "U": "\\U%08x"}[mode] % c for c in cps)
    want = "".join(map(chr, cps))
    for q in "\"'":
        got = raw_real(q + body + q)
        if got != want:
            i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), 0)
            raise Violation(f"code points {lo:X}..{hi:X} ({mode}): position {i}: got {got[i:i+4]!r}, expected {want[i:i+4]!r}")
    return {"obs": item, "traces": 2, "trans": len(cps)}


def c07_hex(item):
    """one hex digit string; too large ones are rejected naming the code point"""
    kind, digits = item
    cp = int(digits, 16)
    body = "\\" + kind + digits
    n = 0
    for text, pre, post in ((f'"{body}"', "", ""), (f"'a{body}b'", "a", "b"), (f'"{body}{body}0"', chr(cp) if cp <= 0x10FFFF else "", "0")):
        n += 1
        if cp <= 0x10FFFF:
            got = raw_real(text)
            require(got == pre + chr(cp) + post, "%r decoded to %r", text, got)
        else:
            try:
                got = raw_real(text)
            except QueryParserException as ex:
                require("%X" % cp in str(ex).upper(), "%r rejected without naming the code point: %s", text, ex)
            else:
                raise Violation(f"{text!r} accepted as {got!r}")
    return {"obs": cp > 0x10FFFF, "traces": n}


def hex_items(full):
    out = []
    dig = "0123456789abcdefABCDEF"
    for kind, n in (("x", 2), ("u", 4), ("U", 8)):
        for base in ("0" * n, ("0000004f"[-n:]), "f" * n, "0010ffff"[-n:], "00100000"[-n:], "12345678"[-n:], "00012345"[-n:]):
            for i in range(n):
                for c in dig:
                    out.append((kind, base[:i] + c + base[i + 1 :]))
    for cp in (0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFE, 0xFFFF, 0x10000):
        out.append(("U", "%08X" % cp))
        out.append(("U", "%08x" % cp))
    for a in range(0x11, 0x100) if full else range(0x11, 0x100, 7):
        out.append(("U", "%04x0000" % a))
    return list(dict.fromkeys(out))


def c07_cfg(text):
    return in_every_config(text, lambda t: [c[3] for c in conds(t)], "patterns")


def C07(ctx):
    ctx.run("all sequences of units", c07_units, [(u,) for u in UNITS] + list(itertools.product(UNITS, repeat=2)), f"{len(UNITS)} literal and escape units, length <= 2, both quotes, other quote before and after")
    few = ["a", " ", "\n", "\U0001f600", "e\u0301", "\\\\", '\\"', "\\'", "\\n", "\\.", "\\]", "\\x41", "\\u0301", "\\U0001F600", "n", "x4", "{", "/", "0"]
    k = ctx.pick(3, 4)
    ctx.run("longer sequences", c07_units, list(itertools.product(few, repeat=3)) if k == 3 else [p for r in (3, 4) for p in itertools.product(few, repeat=r)], f"{len(few)} units, length {k}")
    ctx.run("places in the query", c07_place, [(u, k) for u in UNITS for k in range(5)], "")
    ctx.run("features together", c07_feature, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c07_cfg, S.features(ctx.pick(2, 3)), "%d configurations x every choice of up to %d of 12 features away from three base queries" % (len(S.CONFIGS), ctx.pick(2, 3)))
    ctx.run("hex digits", c07_hex, hex_items(ctx.thorough), "every position x digit around 7 base numbers, limits")
    top = ctx.pick(0x10000, 0x110000)
    blocks = [(a, min(a + 256, top), "raw") for a in range(0, top, 256)]
    blocks += [(0, 256, "x")] + [(a, a + 256, "u") for a in range(0, 0x10000, 256)]
    utop = ctx.pick(0x1000, 0x110000)
    blocks += [(a, a + 256, "U") for a in range(0, utop, 256)]
    if not ctx.thorough:
        blocks += [(p * 0x10000 + o, p * 0x10000 + o + 256, m) for p in range(0, 17) for o in (0, 0x8000, 0xFF00) for m in ("U", "raw")]
    ctx.run("code points", c07_block, blocks, f"verbatim below {top:X}; all \\x, all \\u; \\U below {utop:X} and plane edges")
    d = ctx.pick(6, 8)
    ctx.run("quotes and backslashes", c07_quoting, ["".join(p) for n in range(d + 1) for p in itertools.product("a\\\"'", repeat=n)], f"every text of <= {d} letters, backslashes, quotes between quotes")
    ctx.run("runs of backslashes", c07_quoting, [a + "\\" * n + b for n in S.sizes(130) for a in ("", "a", "'", '\\"') for b in ("", "a", '"', "'", '"a', "'\\\\")], "lengths")
    dims = S.PATTERNS
    ctx.run("lengths", c07_len, S.dimension_items(dims) + [(d, n) for d in dims for n in S.big_sizes(ctx.pick(66000, 300000))], "up to 40, and around powers of two")


def c07_quoting(body):
    """between either kind of quotes: the pattern when this is one string, a rejection when it is none"""
    n = 0
    for q in "\"'":
        for t, k in ((q + body + q, 1), (f"[a = {q}{body}{q}]", 3)):
            st = M.status(t)
            if st[0] == "ok":
                want = [c[3] for c in conds(ref(t))]
                got = [c[3] for c in conds(real(t, unicode_normalization_form=None))]
                require(got == want, "%r: patterns %r, expected %r", t, got, want)
            else:
                require(not impl.accepts(t), "%r: accepted, the model says %r", t, st)
            n += 1
    return {"obs": body, "traces": n}


def c07_len(item):
    text = S.dimension_query(item)
    require(raw_real(text) == M.decode(text), "pattern of %r altered", text[:80])
    return {"obs": item}


# ---------------------------------------------------------------- C08
FMAP = M.FLAG


def want_flags(letters):
    fl = frozenset(FMAP[c] for c in letters)
    if {"ci", "cs"} <= fl or ("lit" in fl and len(fl) > 1):
        return None
    return tuple(sorted(fl))


C08_T = ['"v"/%s', '[n = "v"/%s]', '("x" | [q:n != \'v\' / %s & m = "w"])+ within s', '"x"/d "v"/%s{2}']


def c08_flags(letters):
    want = want_flags(letters)
    n = 0
    for t in C08_T if len(letters) <= 4 else C08_T[:2]:
        text = t % letters
        n += 1
        try:
            got = [c[4] for c in conds(real(text)) if c[3] == "v"]
        except QueryParserException:
            got = None
        else:
            require(len(got) == 1, "%r: %r", text, got)
            got = got[0]
        require(got == want, "%r: flags %r, expected %s", text, got, "rejection" if want is None else want)
    return {"obs": want, "traces": n, "trans": len(letters)}


def c08_feature(text):
    got, want = ([c[4] for c in conds(t)] for t in (real(text), ref(text)))
    require(got == want, "%r: flags %r, expected %r", text, got, want)
    return {"obs": (text, len(got))}


def c08_pairs(item):
    """flags belong to their own pattern"""
    shape, fs = item
    text = shape
    for k, f in enumerate(fs):
        text = text.replace("@", f'"v{k}"' + ("/" + f if f else ""), 1)
    got = [(c[3], c[4]) for c in conds(real(text))]
    want = [(f"v{k}", want_flags(f)) for k, f in enumerate(fs)]
    require(got == want, "%r: %r, expected %r", text, got, want)
    return {"obs": item}


def c08_mutual(item):
    """each condition owns its flag set"""
    a, b = item
    node = QueryParser().parse(f'"x"/{a} "y"/{b} [z="z"/{a}]')
    sets = [n.regex_flags for n in impl.nodes(node) if isinstance(n, fp.Expression)]
    require(len({id(s) for s in sets}) == 3 or not any(isinstance(s, set) for s in sets), "conditions share one flag set object")
    return {"obs": item}


def c08_cfg(text):
    return in_every_config(text, lambda t: [c[4] for c in conds(t)], "flags")


def C08(ctx):
    k = ctx.pick(5, 6)
    ctx.run("all flag strings", c08_flags, ["".join(p) for n in range(1, k + 1) for p in itertools.product("iIcCld", repeat=n)], f"length <= {k} over iIcCld, 4 places (2 beyond length 4)")
    opts = ["", "i", "C", "l", "d", "dI", "cid"]
    shapes = ["@ @", "@ | @", "[a=@ & b!=@]", "[a=@][b=@]", "(@)+ [!a=@]"]
    ctx.run("flags of several patterns", c08_pairs, [(s, p) for s in shapes for p in itertools.product(opts, repeat=2)] + [("@ [a=@|b=@]", p) for p in itertools.product(opts, repeat=3)], "2 and 3 patterns")
    ctx.run("flag sets are per condition", c08_mutual, list(itertools.product(["i", "C", "l", "d", "id"], repeat=2)), "")
    ctx.run("features together", c08_feature, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c08_cfg, S.features(ctx.pick(2, 3)), "%d configurations x every choice of up to %d of 12 features away from three base queries" % (len(S.CONFIGS), ctx.pick(2, 3)))
    ctx.run("lengths", c08_len, S.dimension_items(["flags-length"]), "")


def c08_len(item):
    text = S.dimension_query(item)
    require(conds(real(text)) == conds(ref(text)), "flags of %r", text)
    return {"obs": item}


# ---------------------------------------------------------------- C09
def c09(item):
    suffix, want = item
    n = 0
    for t, kind in (('"v"%s', "segment"), ('[n="v"]%s', "segment"), ('("v")%s', "group"), ('(("v"+)%s "x"?)* within s', "group"),
                    ('[]{7} | ("x"{8} | "v")%s', "group"), ('("x"{3} "v"%s "y"{4,5}){6,}', "segment"), ('[]%s', "segment"), ('"w"/i%s []', "segment")):
        text = t % suffix
        n += 1
        try:
            tr = real(text)
        except QueryParserException:
            got = None
        else:
            got = [x.attrs for x in M.walk(tr) if x.kind in ("segment", "group")]
        try:
            exp = [x.attrs for x in M.walk(ref(text)) if x.kind in ("segment", "group")]
        except M.Reject:
            exp = None
        require((exp is None) == (want is None) and (want is None or want in exp), "model error for %r", text)
        require(got == exp, "%r: bounds %r, expected %s", text, got, exp if exp is not None else "rejection")
    return {"obs": want, "traces": n, "trans": n}


def bounds_items(full):
    small = list(range(0, full and 41 or 21))
    special = [31, 32, 63, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 32767, 32768, 65535, 65536,
               2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64, 10**20, 10**20 + 1, 10**40]
    special += S.mined().sizes(10**6)
    out = [("", (1, 1)), ("*", (0, -1)), ("+", (1, -1)), ("?", (0, 1))]
    nums = sorted(set(small + special))
    for n in nums:
        for s in {str(n), "0" + str(n), "000" + str(n)}:
            out += [("{%s}" % s, (n, n)), ("{%s,}" % s, (n, -1)), ("{,%s}" % s, (0, n)), ("{ %s }" % s, (n, n)), ("{ %s , }" % s, (n, -1)), ("{\n,%s }" % s, (0, n))]
    pair = sorted(set(small[: full and 41 or 14] + special[:: full and 1 or 3] + [2**31, 2**63, 10**20, 10**20 + 1]))
    for a in pair:
        for b in pair:
            out.append(("{%d,%d}" % (a, b), (a, b) if a <= b else None))
            if a < 4 or b < 4 or a == b:
                out.append(("{00%d, 0%d}" % (a, b), (a, b) if a <= b else None))
    return out


def c09_cfg(text):
    return in_every_config(text, lambda t: [x.attrs for x in M.walk(t) if x.kind in ("segment", "group")], "bounds")


def C09(ctx):
    ctx.run("suffixes", c09, bounds_items(ctx.thorough), "every form x numbers (all small ones, powers of two, large, leading zeros) x 8 places")
    ctx.run("features together", c09_many, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c09_cfg, S.features(ctx.pick(2, 3)), "%d configurations x every choice of up to %d of 12 features away from three base queries" % (len(S.CONFIGS), ctx.pick(2, 3)))
    ctx.run("number of digits", c09_len, S.dimension_items(["repetition-digits", "repetition-number"]) + [("repetition-digits", n) for n in (500, 1000, 2000, 4000, 4300)], "up to 4300 digits (limit of the interpreter's int())")
    reps = ["", "*", "+", "?", "{2}", "{3,}", "{,4}", "{5,6}"]
    ctx.run("several suffixes in one query", c09_many,
            [t.replace("@", "%s") % p for t in ('"a"@ "b"@ []@', '("a"@ | "b"@)@', '(("a"@)@)@') for p in itertools.product(reps, repeat=3)], "3 suffixes, 3 shapes")


def c09_len(item):
    text = S.dimension_query(item)
    got = [x.attrs for x in M.walk(real(text)) if x.kind == "segment"]
    require(got == [x.attrs for x in M.walk(ref(text)) if x.kind == "segment"], "bounds of %r: %r", text[:80], got)
    return {"obs": item}


def c09_many(text):
    g = [x.attrs for x in M.walk(real(text)) if x.kind in ("segment", "group")]
    e = [x.attrs for x in M.walk(ref(text)) if x.kind in ("segment", "group")]
    require(g == e, "bounds of %r: %r, expected %r", text, g, e)
    return {"obs": (text, tuple(g))}


# ---------------------------------------------------------------- C10
CFG_NAMES = ["text", "word", "lemma", "within", "i", "x-a", "a b", "\u00e9", "T" * 50, "x:y", "q:x:y", ":", "a:", ":a", "Text", "TEXT", " text", "text ", "a/i", '"', "\\n", "e\u0301", "a.b", "1", "!a", "a=b", "[]"]
CFG_OPS = [("Eq", Operator.EQUALS), ("Ne", Operator.NOT_EQUALS)]


def c10_expect(text, name, op, norm):
    return M.strip_spans(ref(text, Cfg(name, op, norm)))


C10_Q = [
    '"a"', "'a'/i", '"a" "b"', '"a" | ("b" [])', '[x = "a"]', '[q:x != "a"/l]', '"a" [x = "b"] "c"', '[text = "a"]', '[text != "a"] "b"',
    '("a"{2} | [x="y" & z!="w"])+ "b" within s', '[word = "a"] | "word"', '[]', '"text" [lemma = "a"]', '"e\u0301" [x = "e\u0301"]',
]


def c10_cfg(item):
    name, op, norm, qi = item
    text = C10_Q[qi]
    p = QueryParser(default_identifier=name, default_operator=dict(CFG_OPS)[op], unicode_normalization_form=norm)
    want = c10_expect(text, name, op, norm)
    for _ in range(2):
        got = impl.tree(p.parse(text), spans=False)
        impl.same(got, want, text, f"tree under configuration {item[:3]}")
    return {"obs": want, "traces": 2}


def c10_feature(text):
    n = 0
    for name, op, norm in (("text", "Eq", "NFC"), ("word", "Ne", None), ("pos", "Eq", "NFD"), ("e\u0301", "Ne", "NFKC")):
        want = c10_expect(text, name, op, norm)
        for loc in (True, False):
            p = QueryParser(default_identifier=name, default_operator=dict(CFG_OPS)[op], unicode_normalization_form=norm, enableSourceLocations=loc)
            impl.same(impl.tree(p.parse(text), spans=False), want, text, f"tree under configuration {(name, op, norm, loc)}")
            n += 1
    return {"obs": text, "traces": n}


def c10_two(item):
    """two parsers built first, then used alternately; a default one in between and afterwards"""
    c1, c2, qi = item
    mk = lambda c: QueryParser(default_identifier=c[0], default_operator=dict(CFG_OPS)[c[1]], unicode_normalization_form=c[2])  # noqa: E731
    p1, p2, p0 = mk(c1), mk(c2), QueryParser()
    text = C10_Q[qi]
    for p, c in ((p1, c1), (p2, c2), (p0, ("text", "Eq", "NFC")), (p1, c1), (p2, c2), (QueryParser(), ("text", "Eq", "NFC")), (p1, c1)):
        impl.same(impl.tree(p.parse(text), spans=False), c10_expect(text, *c), text, f"tree of the parser configured {c}")
    # reconfiguring a parser object through its public attributes takes effect for that parser only
    p1.default_identifier, p1.default_operator, p1.unicode_normalization_form = c2[0], dict(CFG_OPS)[c2[1]], c2[2]
    impl.same(impl.tree(p1.parse(text), spans=False), c10_expect(text, *c2), text, "tree after reconfiguration")
    impl.same(impl.tree(p0.parse(text), spans=False), c10_expect(text, "text", "Eq", "NFC"), text, "tree of the default parser")
    return {"obs": item, "traces": 9, "trans": 9}


def c10_equiv(item):
    """"p"/f  ==  [text = "p"/f] with the default configuration, up to the location"""
    pat, fl, rep = item
    a = real(pat + fl + rep)
    b = real(f"[text = {pat}{fl}]{rep}")
    impl.same(a, b, pat + fl + rep, "bare pattern vs condition written out")
    return {"obs": a, "traces": 2}


def c10_words(words):
    text = " ".join(words)
    for name, op in (("lay", "Ne"), ("text", "Eq")):
        p = QueryParser(default_identifier=name, default_operator=dict(CFG_OPS)[op])
        got = conds(impl.tree(p.parse(text), spans=False))
        want = conds(ref(text, Cfg(name, op, "NFC")))
        require(got == want, "%r with defaults %s %s: conditions %r, expected %r", text, name, op, got, want)
    return {"obs": tuple(want), "traces": 2}


def c10_name(item):
    """configured names found in the code and near misses, with locations on and off"""
    name, loc = item
    for op in ("Eq", "Ne"):
        p = QueryParser(default_identifier=name, default_operator=dict(CFG_OPS)[op], enableSourceLocations=loc)
        for text in C10_Q[:10]:
            impl.same(impl.tree(p.parse(text), spans=False), c10_expect(text, name, op, "NFC"), text, f"tree with default layer {name!r}")
    return {"obs": item, "traces": 20}


def C10(ctx):
    norms = ["NFC", "NFD", None]
    ctx.run("configuration x query", c10_cfg, list(itertools.product(CFG_NAMES, ["Eq", "Ne"], norms, range(len(C10_Q)))), f"{len(CFG_NAMES)} names x 2 operators x 3 forms x {len(C10_Q)} queries")
    ctx.run("features together", c10_feature, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    names = sorted(set(CFG_NAMES) | set(S.mined().names()) | {x for x in S.mined().strs if x.strip() and len(x) < 30})
    ctx.run("configured names", c10_name, [(n, loc) for n in names for loc in (False, True)], f"{len(names)} names: every text constant of the code and near misses")
    cfgs = [("text", "Eq", "NFC"), ("word", "Ne", None), ("lemma", "Eq", "NFD"), ("text", "Ne", "NFKC"), ("x-a", "Eq", None)]
    ctx.run("two parsers used alternately", c10_two, [(a, b, q) for a in cfgs for b in cfgs for q in range(len(C10_Q))], f"5x5 configurations x {len(C10_Q)} queries, 9 parses each")
    opts = ["default_identifier", "default_operator", "unicode_normalization_form", "enableSourceLocations"]
    ctx.run("settings left out", c10_given, [(q, frozenset(s)) for q in range(len(C10_Q)) for k in range(5) for s in itertools.combinations(opts, k)], "every subset of the four settings")
    ctx.run("a parser reconfigured between parses", c10_reconf, [(a, b, q) for a in cfgs for b in cfgs for q in range(len(C10_Q))], "the public settings changed between calls")
    pats = ['"%s"' % "".join(u) for u in UNITS] + ["'%s'" % u for u in UNITS]
    ctx.run("implicit and explicit form", c10_equiv, list(itertools.product(pats, ["", "/i", "/l", "/Id"], ["", "+", "{2,3}"])), "pattern units x flags x repetition")
    n = ctx.pick(6, 7)
    ctx.run("all query shapes", c10_words, [tuple(S.query_words(s)) for s in S.query_sentences(n)], f"query words <= {n}")
    ctx.run("sizes", c10_dim, S.dimension_items(["sequence", "alternatives", "repeated-groups", "sequence-of-groups", "pattern-length", "pattern-astral", "escapes", "flags-length"], ctx.pick(130, 400)), "number of bare patterns, nesting, lengths")
    ctx.run("big sizes", c10_dim, S.big_items(ctx.pick(1025, 5001), ctx.pick(5001, 70001), ["sequence", "alternatives", "sequence-of-groups", "pattern-length", "escapes", "flags-length"]), "number of bare patterns, lengths, around powers of two and round numbers")


def c10_given(item):
    """settings that are left out have their documented defaults"""
    q, given = item
    text = C10_Q[q]
    other = {"default_identifier": "zz", "default_operator": impl.OPS_INV["Ne"], "unicode_normalization_form": "NFD", "enableSourceLocations": True}
    p = QueryParser(**{k: other[k] for k in given})
    got = p.parse(text)
    want = c10_expect(text, "zz" if "default_identifier" in given else "text", "Ne" if "default_operator" in given else "Eq", "NFD" if "unicode_normalization_form" in given else "NFC")
    impl.same(impl.tree(got, spans=False), want, text, f"tree of a parser given only {sorted(given)}")
    require(all((impl.span(x) is not None) is ("enableSourceLocations" in given) for x in impl.nodes(got)), "%r: locations of a parser given only %s", text, sorted(given))
    return {"obs": item}


def c10_reconf(item):
    """the configuration that holds is the one a parser has when it parses"""
    a, b, q = item
    text = C10_Q[q]
    p = QueryParser(default_identifier=a[0], default_operator=impl.OPS_INV[a[1]], unicode_normalization_form=a[2])
    for name, op, form in (a, b, a, b):
        p.default_identifier, p.default_operator, p.unicode_normalization_form = name, impl.OPS_INV[op], form
        for loc in (False, True, False):
            p.enableSourceLocations = loc
            got = p.parse(text)
            impl.same(impl.tree(got, spans=False), c10_expect(text, name, op, form), text, f"tree after setting {name!r}, {op}, {form}")
            require(all((impl.span(x) is not None) is loc for x in impl.nodes(got)), "%r: locations after setting enableSourceLocations to %s", text, loc)
    return {"obs": item, "traces": 12}


def c10_dim(item):
    return c10_words([S.dimension_query(item)])


# ---------------------------------------------------------------- C11
NU = ["e\u0301", "\u00e9", "\u1ec7", "e\u0323\u0302", "e\u0302\u0323", "\ufb01", "\u212b", "\u00c5", "A\u030a", "\u1100\u1161\u11a8", "\uac01", "\uac00\u11a8", "\u0958", "\u00bd", "\uff21", "\u2126",
      "\u0344", "\u0308\u0301", "a", " ", "\u0301", "\U0001d15e", "\u2000", "\u00b5", "\u1e9b\u0323", "\u03d3", "\uf900", "\U0002f800", "I\u0307", "\u0130"]
FORMS = ["NFC", "NFD", "NFKC", "NFKD", None]


def esc(s):
    return "".join("\\u%04X" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c) for c in s)


def norm(form, s):
    return unicodedata.normalize(form, s) if form else s


def c11(item):
    form, units = item
    s = "".join(units)
    want = norm(form, s)
    n = 0
    p = QueryParser(unicode_normalization_form=form)
    for sp in (s, esc(s), s[:1] + esc(s[1:]), esc(s[:1]) + s[1:]):
        for t in (f'"{sp}"', f"[x = '{sp}']", f'[!(q:x != "{sp}"/i)]', f"('{sp}'/d){{2}} | [pos='{sp}']"):
            got = {c[3] for c in conds(impl.tree(p.parse(t), spans=False))}
            n += 1
            require(got == {want}, "%r with form %s: pattern %s, expected %s", t, form, [ascii(g) for g in got], ascii(want))
    if form == "NFC":
        got = {c[3] for c in conds(real(f'"{s}" [x="{esc(s)}"]'))}
        require(got == {want}, "default configuration does not normalise to NFC: %s", ascii(got))
        n += 1
        import fcsql

        got = {c[3] for c in conds(impl.tree(fcsql.parse(f'"{s}" [x="{esc(s)}"]'), False))}
        require(got == {want}, "fcsql.parse() does not normalise to NFC: %s", ascii(got))
    return {"obs": want, "traces": n}


def c11_block(item):
    form, lo, hi = item
    p = QueryParser(unicode_normalization_form=form)
    cps = [c for c in range(lo, hi) if chr(c) not in "\"'\\"]
    s = "".join(chr(c) + "." for c in cps)
    want = norm(form, s)
    for t in (f'"{s}"', f"[x = '{s}']"):
        got = conds(impl.tree(p.parse(t), spans=False))[0][3]
        require(got == want, "form %s, code points %X..%X: %s", form, lo, hi, first_diff(got, want))
    return {"obs": item, "traces": 2, "trans": len(cps)}


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(itertools.zip_longest(a, b)) if x != y), 0)
    return f"position {i}: {ascii(a[i:i+6])} instead of {ascii(b[i:i+6])}"


def C11(ctx):
    k = ctx.pick(1, 2)
    items = [(f, u) for f in FORMS for r in range(1, k + 1) for u in itertools.product(NU, repeat=r)]
    if k == 1:
        items += [(f, u) for f in FORMS for u in itertools.product(NU[:7] + NU[9:11] + NU[20:21], repeat=2)]
    ctx.run("normalisation units x forms x spellings x places", c11, items, f"{len(NU)} units, length <= {k}, 4 spellings, 4 places")
    top = ctx.pick(0x10000, 0x110000)
    b = [(f, a, min(a + 512, top)) for f in FORMS for a in range(0, top, 512)]
    if not ctx.thorough:
        b += [(f, a, a + 512) for f in FORMS for a in (0x11000, 0x1D100, 0x2F800, 0x1F100)]
    ctx.run("code points x forms", c11_block, b, f"all below {top:X}")
    ctx.run("forms set later", c11_later, [(fs, "".join(u)) for k in (2, 3) for fs in itertools.product(FORMS, repeat=k) for u in ([(x,) for x in NU] if k == 2 or ctx.thorough else []) + [tuple(NU[:6])]], "every sequence of up to 3 forms on one parser")
    ctx.run("lengths", c11_len, [(f, n) for f in FORMS for n in S.sizes(300) + S.big_sizes(ctx.pick(2049, 20001))], "up to 40, around powers of two and round numbers")
    ctx.run("offsets of a composing pair", c11_at, [(f, n) for f in FORMS for n in S.sizes(300) + S.big_sizes(ctx.pick(5001, 70000))], "a pair split at every offset up to 40, around powers of two and round numbers")
    ctx.run("features together", c11_feature, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))


def c11_feature(text):
    for form in FORMS:
        p = QueryParser(unicode_normalization_form=form)
        got = [c[3] for c in conds(impl.tree(p.parse(text), spans=False))]
        want = [norm(form, c[3]) for c in conds(ref(text, Cfg("text", "Eq", None)))]
        require(got == want, "%r with form %s: patterns %r, expected %r", text, form, got, want)
    return {"obs": text, "traces": len(FORMS)}


def c11_later(item):
    """the form that holds is the one a parser has when it parses"""
    forms, s = item
    p = QueryParser(unicode_normalization_form=forms[0])
    n = 0
    for used, f in enumerate(forms[1:] + forms):
        p.unicode_normalization_form = f
        for t in (f'"{s}"', f"[x='{s}'/i & !(y != \"{esc(s)}\")]"):
            got = {c[3] for c in conds(impl.tree(p.parse(t), spans=False))}
            require(got == {norm(f, s)}, "%r after setting form %s (before: %s): patterns %s, expected %s", t, f, forms, [ascii(g) for g in got], ascii(norm(f, s)))
            n += 1
    return {"obs": item, "traces": n}


def c11_at(item):
    form, n = item
    p = QueryParser(unicode_normalization_form=form)
    for pad in ("x", "\u00e9"):
        for pair in ("e\u0301", "\u1100\u1161", "a\u0302\u0323", "\ufb01"):
            s = pad * (n - 1) + pair + pad
            got = conds(impl.tree(p.parse(f"'{s}'"), False))[0][3]
            require(got == norm(form, s), "form %s, %r after %d times %r: %s", form, pair, n - 1, pad, first_diff(got, norm(form, s)))
    return {"obs": item, "traces": 8}


def c11_len(item):
    form, n = item
    s = "e\u0301\ufb01" * n
    p = QueryParser(unicode_normalization_form=form)
    for s in (s, "a" + "\u0301\u0323" * n + "b", "\u1100\u1161\u11a8" * n, "\U0001f600\u00e9" * n, "\ufb01 " * n, "\u0323" * n + "e" + "\u0301" * n):
        got = conds(impl.tree(p.parse(f'"{s}"'), False))[0][3]
        require(got == norm(form, s), "form %s, %d repetitions in %r: %s", form, n, s[:8], first_diff(got, norm(form, s)))
    return {"obs": item, "traces": 6}


# ---------------------------------------------------------------- C13
def c13_check(text):
    """locations on: exact extents everywhere; off: none, and otherwise the same tree"""
    on = QueryParser(enableSourceLocations=True).parse(text)
    off = QueryParser(enableSourceLocations=False).parse(text)
    want = ref(text)
    got = impl.tree(on)
    a, b = keep_spans(got), keep_spans(want)
    impl.same(a, b, text, "locations")
    for n in impl.nodes(on):
        require(n.location is not None, "%r: a %s node has no location", text, type(n).__name__)
        if isinstance(n, fp.QuerySequence) and len(n.children) == 1:
            require(impl.span(n) == impl.span(n.children[0]), "%r: one-element sequence at %s around %s", text, n.location, n.children[0].location)
    for n in impl.nodes(off):
        require(n.location is None, "%r: location %s although disabled", text, n.location)
    x, y = impl.tree(on, False, False), impl.tree(off, False, False)
    impl.same(x, y, text, "tree with locations vs without")
    return got


def keep_spans(n):
    """kind, extent and children only"""
    return N(n.kind, (), tuple(keep_spans(c) for c in n.children), n.span)


def c13_words(words):
    n = 0
    for st in ("spaced", "compact", "wild", "astral"):
        g = c13_check(S.layout(list(words), st))
        n += 2
    return {"obs": g, "traces": n, "trans": len(words)}


def c13_text(text):
    n = 0
    for pre in ("", "  ", "\n\n\t", "\u3000\r\n"):
        for post in ("", " ", "\n\n"):
            g = c13_check(pre + text + post)
            n += 2
    return {"obs": g, "traces": n}


def c13_one(text):
    return {"obs": c13_check(text), "traces": 2}


def c13_dim(item):
    return {"obs": c13_check(S.dimension_query(item)), "traces": 2}


def c13_api(text):
    """the module level function: locations on by default, off on request"""
    import fcsql

    a, b, c = fcsql.parse(text), fcsql.parse(text, enableSourceLocations=False), fcsql.parse(text, enableSourceLocations=True)
    impl.same(keep_spans(impl.tree(a)), keep_spans(ref(text)), text, "locations by default")
    impl.same(impl.tree(c), impl.tree(a), text, "locations when requested")
    require(all(n.location is None for n in impl.nodes(b)), "%r: location although disabled", text)
    return {"obs": impl.tree(a), "traces": 3}


def c13_later(item):
    """locations are there exactly while they are enabled"""
    start, text = item
    want = keep_spans(ref(text))
    for steps in itertools.product((True, False), repeat=3):
        p = QueryParser(enableSourceLocations=start)
        for on in steps:
            p.enableSourceLocations = on
            root = p.parse(text)
            if on:
                impl.same(keep_spans(impl.tree(root)), want, text, f"locations after switching {start} -> {steps}")
            else:
                require(all(n.location is None for n in impl.nodes(root)), "%r: location although switched off (%s -> %s)", text, start, steps)
    return {"obs": item, "traces": 24}


def C13(ctx):
    nq, ne = ctx.pick((5, 7), (6, 8))
    ctx.run("all small queries x 4 layouts x on/off", c13_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}; spaced, compact, multi-line, astral")
    ctx.run("constructs x surrounding space", c13_text, S.VALID, "")
    ctx.run("features together", c13_one, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("switched on and off", c13_later, [(a, t) for a in (True, False) for t in S.VALID], "every sequence of 3 switches on one parser")
    ctx.run("module level function", c13_api, S.VALID, "")
    ctx.run("sizes", c13_dim, S.dimension_items(cap=ctx.pick(66, 1100)), "every dimension")
    far = ["leading-space", "inner-space", "lines", "pattern-length", "name-length", "escapes"]
    ctx.run("far from the start", c13_dim, [(d, n) for d in far for n in S.big_sizes(ctx.pick(70000, 270000) if d == "leading-space" else ctx.pick(5001, 70000))], "offsets around powers of two and round numbers")
    reps = ["", "*", "{2}", "{ 3 , 4 }", "{,5}", "{6,}"]
    fl = ["", "/i", " / dI"]
    ctx.run("repetition and flags", c13_text, [t % (f, r) for t in ('"a"%s%s', '[a = "b"%s]%s', '("a"%s | "b")%s', 'X "a"%s%s Y'.replace("X", "[]+").replace("Y", "[]")) for f in fl for r in reps], "")


# ---------------------------------------------------------------- C14
def shift(n, d):
    return N(n.kind, n.attrs, tuple(shift(c, d) for c in n.children), (n.span[0] - d, n.span[1] - d))


def reparse(kind, piece):
    """the subtree the piece stands for on its own, and the offset its text has there"""
    def p(t):
        return impl.tree(QueryParser(enableSourceLocations=True).parse(t))

    if kind in ("segment", "group", "sequence", "disjunction", "within"):
        return p(piece), 0
    if kind == "scope":
        return p('"a" within ' + piece).children[1], 11
    if kind == "wildcard" or (kind == "cond" and piece[:1] in "\"'"):
        return p(piece).children[0], 0
    return p("[" + piece + "]").children[0], 1


def c14_check(text):
    t = impl.tree(QueryParser(enableSourceLocations=True).parse(text))
    n = 1
    for x in M.walk(t):
        a, b = x.span
        require(0 <= a < b <= len(text), "%r: %s located at %d:%d", text, x.kind, a, b)
        last = a
        for c in x.children:
            require(last <= c.span[0] and c.span[1] <= b, "%r: child %s at %s does not fit %s at %s in order", text, c.kind, c.span, x.kind, x.span)
            last = c.span[1]
        try:
            sub, off = reparse(x.kind, text[a:b])
        except QueryParserException as ex:
            raise Violation(f"{text!r}: fragment {text[a:b]!r} of {x.kind} at {x.span} does not parse: {ex}")
        got = shift(sub, off)
        want = shift(x, a)
        impl.same(got, want, text[a:b], f"fragment of {text!r} on its own: tree")
        n += 1
    return t, n


def c14_words(words):
    k = 0
    for st in ("compact", "wild", "astral"):
        t, n = c14_check(S.layout(list(words), st))
        k += n
    return {"obs": t, "traces": k, "trans": len(words)}


def c14_text(text):
    t, n = c14_check(text)
    return {"obs": t, "traces": n}


def c14_far(n):
    for t in (" " * n + '"a" [b = "c"]{2} within s', '"a"' + "\n" * n + '| ([!b = "c"])'):
        r = c14_text(t)
    return {"obs": n, "traces": 2 * r["traces"]}


def c14_dim(item):
    return c14_text(S.dimension_query(item))


def C14(ctx):
    nq, ne = ctx.pick((5, 6), (6, 8))
    ctx.run("all small queries x layouts, every node", c14_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}")
    ctx.run("constructs", c14_text, S.VALID + ["\n " + v + " \n" for v in S.VALID], "")
    ctx.run("features together", c14_text, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    dims = [d for d in S.DIMENSIONS if d not in ("leading-space", "trailing-space", "inner-space", "lines")]
    ctx.run("sizes", c14_dim, S.dimension_items(dims, ctx.pick(20, 40)), "every dimension")
    ctx.run("far from the start", c14_far, S.big_sizes(ctx.pick(66000, 270000)), "offsets around powers of two and round numbers")
    ctx.run("amount of space", c14_dim, S.dimension_items(["leading-space", "trailing-space", "inner-space", "lines"], ctx.pick(300, 5000)), "")
