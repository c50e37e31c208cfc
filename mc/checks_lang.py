"""C01 C02 C12 C26 C27(part): words and sentences"""
from mc import boot  # noqa: F401
import fcsql
from antlr4 import InputStream, CommonTokenStream, Token
from antlr4.error.ErrorListener import ErrorListener
from fcsql.FCSLexer import FCSLexer
from fcsql.parser import QueryParser, QueryParserException

from mc import impl, model as M, spaces as S
from mc.core import Violation, require
from mc.model import LEXER, PDA, TOKENS


# ---------------------------------------------------------------- C01
def judge(text):
    """accepted by the parser and the helper exactly when the model says so"""
    want = M.status(text)
    ok = want[0] == "ok"
    got = impl.accepts(text)
    if got != ok:
        raise Violation(f"{text!r}: model says {want[0]} ({want[1] if not ok else ''}), parser {'accepts' if got else 'rejects'}")
    cp = fcsql.can_parse(text)
    if cp is not ok:
        raise Violation(f"{text!r}: can_parse() gives {cp!r}, parse() {'accepts' if got else 'rejects'}")
    return want[0]


def c01_prefix(prefix):
    """every one-word extension of a viable prefix, its shortest completion, and the completion of the
    prefix with the wrong word left in the middle"""
    st = PDA.start
    for t in prefix:
        st = PDA.step(st, t)
    n, obs = 0, []
    comp = tuple(PDA.completion(st))
    texts = [prefix, prefix + comp]
    for t in TOKENS:
        s2 = PDA.step(st, t)
        texts.append(prefix + (t,))
        if s2 is not None:
            texts.append(prefix + (t,) + tuple(PDA.completion(s2)))
        else:
            texts.append(prefix + (t,) + comp)
    for w in dict.fromkeys(texts):
        obs.append(judge(M.text_of(w)))
        n += 1
    return {"obs": (len(prefix), tuple(sorted(set(obs))), st), "trans": len(TOKENS), "traces": n}


def c01_state(item):
    """access sequence of a state, then every pair of words, then a completion"""
    acc, t1 = item
    st = PDA.start
    for t in acc:
        st = PDA.step(st, t)
    s1 = PDA.step(st, t1)
    n = 0
    oks = 0
    for t2 in TOKENS:
        w = acc + (t1, t2)
        s2 = s1 is not None and PDA.step(s1, t2)
        tail = tuple(PDA.completion(s2 if s2 else (s1 if s1 else st)))
        for x in {w, w + tail}:
            oks += judge(M.text_of(x)) == "ok"
            n += 1
    return {"obs": (acc, t1, oks), "trans": len(TOKENS) + 1, "traces": n}


LONG = [
    'STR / FLAGS { INT , INT } [ NAME = STR ] within SCOPE',
    '( STR | [ NAME : NAME != STR / FLAGS & NAME = STR ] ) * STR',
    '[ ! ( NAME = STR | NAME = STR ) & NAME = STR ] + | [ ] ?',
    'STR STR STR STR | STR STR | STR { INT , } STR { , INT } STR { INT }',
    '( ( ( STR ) ) ) ( STR | STR ) within SCOPE',
    '[ NAME = STR & ! NAME = STR | ( NAME = STR ) ]',
    '[ within : SCOPE = STR ] [ FLAGS : within != STR ] [ SCOPE = STR ]',
]


def c01_edit(item):
    """all single-word deletions, insertions, replacements and neighbour swaps of a long sentence"""
    k, pos = item
    w = tuple(LONG[k].split())
    texts = {w[:pos] + w[pos + 1 :], w[:pos] + w[pos + 1 : pos + 2] + w[pos : pos + 1] + w[pos + 2 :], w[:pos]}
    for t in TOKENS:
        texts.add(w[:pos] + (t,) + w[pos:])
        texts.add(w[:pos] + (t,) + w[pos + 1 :])
    obs = [judge(M.text_of(x)) for x in sorted(texts)]
    return {"obs": (k, pos, obs.count("ok")), "trans": len(texts), "traces": len(texts)}


def c01_text(text):
    return {"obs": judge(text)}


def c01_dim(item):
    """sizes: the sentence is accepted, the same sentence with one word dropped at the end, or with a stray
    bracket added, is judged by the model"""
    q = S.dimension_query(item)
    n = 0
    for t in (q, q + " )", q + " =", "] " + q):
        judge(t)
        n += 1
    return {"obs": item, "traces": n}


def c01_cfg(text):
    """accepted or not, however the parser is set up"""
    want = M.status(text)[0] == "ok"
    for name, op, form, loc in S.CONFIGS:
        p = QueryParser(default_identifier=name, default_operator=impl.OPS_INV[op], unicode_normalization_form=form, enableSourceLocations=loc)
        try:
            p.parse(text)
            got = True
        except QueryParserException:
            got = False
        require(got is want, "%r: %s by a parser set up by %s", text, "accepted" if got else "rejected", (name, op, form, loc))
    return {"obs": (text, want), "traces": len(S.CONFIGS)}


def static_texts(full):
    out = []
    nums = ["0", "1", "2", "3", "9", "10", "11", "007", "99", "100"]
    ctx = ['"a"{%s}', '[a="b"]{%s}', '("a"){%s}', '("a" | []{%s})+ within s', '"x" "a"{%s} "y"{2}']
    for a in nums:
        for b in nums:
            out += [c % f"{a},{b}" for c in (ctx if full else ctx[:3])]
    import itertools

    for k in range(1, 4):
        for f in itertools.product("iIcCld", repeat=k):
            out.append('"a"/' + "".join(f))
            out.append('[x = "a"/%s & y = "b"]' % "".join(f))
    for cp in ("0000FFFF", "00010000", "0010FFFF", "00110000", "7FFFFFFF", "80000000", "FFFFFFFF", "0000D800"):
        out += ['"\\U%s"' % cp, "['a' != \"\"]".replace("'a'", "a").replace('""', '"\\U%s"' % cp), '"a" | "\\U%s"{2}' % cp]
    return out


def C01(ctx):
    L = ctx.pick(5, 6)
    pre = [p for p, _ in M.prefixes(L)]
    ctx.run("viable prefixes x every next word x completion", c01_prefix, pre, f"prefix length <= {L}")
    d = ctx.pick(2, 3)
    acc, ntr = M.reach(d)
    ctx.run(
        "automaton states x word x word",
        c01_state,
        [(a, t) for a in acc.values() for t in TOKENS],
        f"all {len(acc)} states with nesting <= {d}, {ntr} transitions",
        states=len(acc),
    )
    ctx.run("single-word edits of long sentences", c01_edit,
            [(k, i) for k in range(len(LONG)) for i in range(len(LONG[k].split()) + 1)], "distance 1")
    ctx.run("extra characters", c02_edge, list(range(0x20, 0x180)), "before, after and between the words of a query")
    ctx.run("static rules", c01_text, static_texts(ctx.thorough), "bounds x bounds, flag strings <= 3, code points")
    ctx.run("base queries", c01_text, S.BASE, "one per construct")
    ctx.run("features together", c01_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c01_cfg, S.BASE + static_texts(ctx.thorough) + S.features(ctx.pick(1, 2)) + S.feature_mistakes(ctx.pick(0, 1)), f"{len(S.CONFIGS)} ways to set up the parser")
    ctx.run("features together, with a mistake", c01_text, S.feature_mistakes(ctx.pick(1, 1)), "a word left out, doubled, a wrong piece in between; up to %d of 12 features away from three base queries" % ctx.pick(1, 1))
    ctx.run("many mistakes", c01_text, S.many_mistakes(S.sizes(130) + S.big_sizes(ctx.pick(257, 2049))), "one mistake over and over: up to 40 times, around powers of two and round numbers")
    ctx.run("sizes", c01_dim, S.dimension_items(cap=ctx.pick(130, None)), "every dimension up to its limit")
    ctx.run("big sizes", c01_dim, S.big_items(ctx.pick(1025, 5001), ctx.pick(70001, 300000)), "number of elements, lengths of words and gaps, around powers of two and round numbers")


# ---------------------------------------------------------------- C02
class Collect(ErrorListener):
    def __init__(self):
        self.n = []

    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        self.n.append(getattr(e, "startIndex", None))


NAMES = {i: M.ANTLR_NAMES.get(n) for i, n in enumerate(FCSLexer.symbolicNames)}


def real_tokens(text):
    lx = FCSLexer(InputStream(text))
    lx.removeErrorListeners()
    c = Collect()
    lx.addErrorListener(c)
    out = []
    while True:
        t = lx.nextToken()
        if t.type == Token.EOF:
            break
        out.append((NAMES.get(t.type, t.type), t.start, t.stop + 1))
    return out, c.n


def judge_words(text):
    toks, err = LEXER.scan(text)
    got, errs = real_tokens(text)
    if err is None:
        require(not errs, "%r: the rules cut this text into words, the lexer reports an error", text)
        require(got == toks, "%r: words differ\n  expected %r\n  observed %r", text, toks, got)
    else:
        require(errs, "%r: no rule matches at %d, the lexer reports nothing (words %r)", text, err, got)
        head = [t for t in got if t[2] <= err]
        require(head == toks, "%r: words before the unrecognisable piece differ\n  expected %r\n  observed %r", text, toks, head)
    return toks, err


def c02_text(text):
    toks, err = judge_words(text)
    judge(text)
    return {"obs": (tuple(t[0] for t in toks), err is None), "traces": 2}


def wrap_name(text):
    return f'[{text}="v"]'


def c02_state(item):
    """one automaton state, every character class: both ends of the class, alone and continued"""
    acc, cls = item
    lo = LEXER.cuts[cls]
    hi = LEXER.cuts[cls + 1] - 1 if cls + 1 < len(LEXER.cuts) else 0x10FFFF
    n, obs = 0, set()
    for cp in {lo, hi}:
        for tail in ("", '"', "'", "a", " a", "1", "-"):
            t = acc + chr(cp) + tail
            toks, err = judge_words(t)
            obs.add((tuple(x[0] for x in toks), err is None))
            n += 1
        judge(acc + chr(cp))
        judge(wrap_name(acc + chr(cp)))
        judge('"x"/' + acc + chr(cp))
        n += 3
    return {"obs": tuple(sorted(map(str, obs))), "trans": 14, "traces": n}


def dfa_access():
    acc = {0: ""}
    todo = [0]
    for s in todo:
        for c, t in enumerate(LEXER.trans[s]):
            if t is not None and t not in acc:
                acc[t] = acc[s] + chr(LEXER.cuts[c])
                todo.append(t)
    return acc


def c02_block(item):
    """all code points of a block: outside quotes one by one (alone and after a name), inside quotes together"""
    lo, hi = item
    n = 0
    for cp in range(lo, hi):
        c = chr(cp)
        for t in (c, "a" + c + "b"):
            toks, err = LEXER.scan(t)
            got, errs = real_tokens(t)
            if (err is None) != (not errs) or (err is None and got != toks):
                raise Violation(f"U+{cp:04X} outside quotes: text {t!r}: expected {toks, err}, observed {got, errs}")
            n += 1
    body = "".join(chr(cp) for cp in range(lo, hi) if chr(cp) not in "\"'\\")
    for q in "\"'":
        t = q + body + q
        got, errs = real_tokens(t)
        require(not errs and got == [("STR", 0, len(t))], "code points %X..%X inside quotes: %r %r", lo, hi, got, errs)
        n += 1
    return {"obs": item, "traces": n, "trans": 2 * (hi - lo)}


def C02(ctx):
    acc = dfa_access()
    ctx.run(
        "lexer automaton: state x character class x continuation",
        c02_state,
        [(a, c) for a in acc.values() for c in range(len(LEXER.cuts))],
        "complete: state cover x class representatives",
        states=len(acc),
    )
    import itertools

    k = ctx.pick(4, 5)
    al = ctx.pick("\"'\\a-1s! /{=~", "\"'\\a-1s! /={n~")
    ctx.run("all short strings", c02_text,
            ["".join(p) for n in range(0, k + 1) for p in itertools.product(al, repeat=n)], f"length <= {k} over {al!r}")
    d = ctx.pick(7, 9)
    ctx.run("quotes and backslashes", c02_text, ["".join(p) for n in range(k + 1, d + 1) for p in itertools.product("a\\\"'", repeat=n)], f"length <= {d}")
    ctx.run("runs of backslashes", c02_text, [q + a + "\\" * n + b for n in S.sizes(130) for q in "\"'" for a in ("", "a") for b in ("", '"', "'", '"a', "'\"", '""', "n")], "lengths")
    ctx.run("long words and gaps", c02_big, S.big_items(ctx.pick(1025, 5001), ctx.pick(70001, 300000)), "around powers of two and round numbers")
    ctx.run("features together", c02_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    words = sorted(set(list(M.SCOPES) + ["within", "i", "Id", "cld", "IiCc"] + S.mined().names()))
    near = set()
    for w in words:
        near |= {w, w + "a", w + "1", w + "-", w + "-a", w + "-1", w + w, w.upper(), w.capitalize(), w[:-1], "x" + w, w + "_", w + "é", w + "--1", w + " " + w}
    ctx.run("reserved words and near misses", c02_text, sorted(near - {""}), "every keyword, scope, flag run and constant of the code")
    ctx.run("the same as layer names", c02_text, [wrap_name(w) for w in sorted(near)], "")
    top = ctx.pick(0x10000, 0x110000)
    ctx.run("code points", c02_block, [(a, min(a + 256, top)) for a in range(0, top, 256)], f"all below {top:X}")
    import unicodedata

    edge = [cp for cp in range(ctx.pick(0x10000, 0x110000)) if cp < 0x400 or cp & 0xFFFE == 0xFFFE or unicodedata.category(chr(cp)) in ("Cc", "Cf", "Zs", "Zl", "Zp", "Sk")]
    ctx.run("code points at the edges of a query", c02_edge, edge, "controls, formats, separators, modifiers, all below 400")


def c02_big(item):
    q = S.dimension_query(item)
    for t in (q, q + "%", q + "'", "\\" + q, q + q):
        judge_words(t)
    return {"obs": item, "traces": 5}


def c02_edge(cp):
    """one character before, after and between the words of a query"""
    c = chr(cp)
    obs = []
    for t in (c + '"a"', '"a"' + c, '"a"' + c + '"b"', c + "[a=\"b\"]{2}" + c, "[" + c + "a = 'b'/" + c + "i]"):
        obs.append(judge(t))
    return {"obs": tuple(obs), "traces": 5}


# ---------------------------------------------------------------- C12
def plain(text):
    """verdict without locations"""
    o = impl.outcome(text, spans=False)
    return o if o[0] == "ok" else ("err",)


C12_Q = [q for q in S.BASE if LEXER.scan(q)[1] is None] + [
    '[a = "b" & !(c != "d"/id | e:f = "g")]{2,13} | ("h" [])+ within session',
    '"a"/i{3,}[x-1:y="z"]',
]


def split(text):
    toks, _ = LEXER.scan(text)
    return [text[a:b] for _, a, b in toks]


def c12_feature(text):
    toks, _ = M.LEXER.scan(text)
    return c12_style(tuple(text[a:b] for _, a, b in toks))


def c12_gap(item):
    """one gap of one query: every whitespace character alone and doubled; and nothing at all"""
    q, gap = item
    w = split(q)
    base = plain(" ".join(w))
    n = 1
    seps = [c for c in M.WS_CHARS] + [c + d for c in M.WS_CHARS for d in " \n\u2028"] + ["\r\n\t \u3000"]
    inner = 0 < gap < len(w)
    if gap in (0, len(w)) or not S.fuses(w[gap - 1], w[gap]):
        seps.append("")
    for s in seps:
        t = " ".join(w[:gap]) + (s if inner or gap in (0, len(w)) else " ") + " ".join(w[gap:])
        got = plain(t)
        require(got == base, "layout changes the meaning: %r gives\n  %s\nbut %r gives\n  %s", " ".join(w), show(base), t, show(got))
        n += 1
    return {"obs": base, "traces": n, "trans": len(seps)}


def show(o):
    return impl.fmt(o[1]) if o[0] == "ok" else "rejection"


def c12_style(item):
    w = list(item)
    base = plain(" ".join(w))
    n = 1
    for st in ("compact", "wild"):
        t = S.layout(w, st)
        got = plain(t)
        require(got == base, "layout changes the meaning: %r gives\n  %s\nbut %r gives\n  %s", " ".join(w), show(base), t, show(got))
        n += 1
    for s in "\n\xa0\u2003\x85":
        t = s + s.join(w) + s
        got = plain(t)
        require(got == base, "layout changes the meaning: %r vs %r", " ".join(w), t)
        n += 1
    return {"obs": base, "traces": n, "trans": n}


def c12_quotes(item):
    """whitespace inside quotes: kept, at every place of the pattern"""
    a, b, q = item
    n = 0
    for pat in (a, a + b, "x" + a, a + "x", "x" + a + b + "y", a + "x" + b, "x" + a + "y" + b + "z"):
        for t in (f"{q}{pat}{q}", f"[l = {q}{pat}{q}]", f'("k" {q}{pat}{q}/i)'):
            p = QueryParser(unicode_normalization_form=None)
            tr = impl.tree(p.parse(t), False)
            leaf = [x for x in M.walk(tr) if x.kind == "cond"][-1]
            require(leaf.attrs[3] == pat, "whitespace inside quotes changed: %r gives pattern %r", t, leaf.attrs[3])
            n += 1
    return {"obs": item, "traces": n, "trans": n}


def C12(ctx):
    ctx.run("each gap x each whitespace", c12_gap,
            [(q, g) for q in C12_Q for g in range(len(split(q)) + 1) if split(q)], "25 characters, alone and in pairs, and no space")
    nq, ne = ctx.pick((5, 6), (6, 8))
    ctx.run("all small queries x layouts", c12_style, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}")
    L = ctx.pick(4, 5)
    pre = [tuple(M.word(t, k) for k, t in enumerate(p + (x,))) for p, st in M.prefixes(L) for x in ctx.pick(["STR", "|", "NAME"], TOKENS)]
    ctx.run("all short word sequences x layouts (mostly rejected)", c12_style, pre, f"viable prefixes <= {L} plus one word")
    ctx.run("whitespace inside quotes", c12_quotes, [(a, b, q) for a in M.WS_CHARS for b in M.WS_CHARS for q in "\"'"], "all pairs")
    ctx.run("features together", c12_feature, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    big = [(d, n) for d, n in S.dimension_items(["leading-space", "trailing-space", "inner-space", "lines"])]
    ctx.run("amount of whitespace", c12_amount, big, "0..limit")
    ctx.run("much whitespace", c12_amount, [(d, n) for d in ("leading-space", "trailing-space", "inner-space", "lines") for n in S.big_sizes(ctx.pick(70001, 300000)) if n > 5000], "around powers of two and round numbers")


def c12_amount(item):
    d, n = item
    base = plain(S.DIMENSIONS[d][0](1))
    for c in (" ", "\n", "\u2003"):
        t = S.DIMENSIONS[d][0](n).replace(" " if d != "lines" else "\n", c)
        require(plain(t) == base, "%d x %r (%s) changes the meaning", n, c, d)
    return {"obs": base, "traces": 4}
