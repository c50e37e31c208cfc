"""C03 C18: rejected and odd texts"""
import contextlib
import io
import itertools
import os
import sys
import time

from mc import boot  # noqa: F401
import fcsql
from fcsql.parser import ErrorDetail, QueryNode, QueryParser, QueryParserException, SourceLocation

from mc import impl, model as M, spaces as S
from mc.core import Violation, require
from mc.model import LEXER, PDA, TOKENS


# ---------------------------------------------------------------- C18
def position(e, text):
    """(start, stop or None) of a reported position, checked to lie within the query"""
    p = e.position
    if p is None:
        return None
    if isinstance(p, SourceLocation):
        require(0 <= p.start <= p.stop <= len(text), "%r: position %s outside of the query (length %d), error %r", text, p, len(text), e.message)
        return p.start, p.stop
    require(isinstance(p, int) and 0 <= p <= len(text), "%r: position %r outside of the query (length %d), error %r", text, p, len(text), e.message)
    return p, None


def judge_error(text, p=None):
    want = M.status(text)
    p = p or QueryParser(enableSourceLocations=True)
    try:
        p.parse(text)
    except QueryParserException as ex:
        errs, said = list(p.errors), str(ex)
    else:
        require(not p.errors, "%r: accepted, but errors %r are listed", text, p.errors)
        require(want[0] in ("ok", "static"), "%r: accepted, but it goes wrong at %r", text, want[1])
        return "ok"
    if want[0] in ("ok", "static"):
        return want[0]
    what, pos = want
    require(errs, "%r: rejected (%s) without any reported error", text, said)
    first, kinds = None, set()
    for e in errs:
        require(isinstance(e, ErrorDetail) and isinstance(e.message, str) and e.message, "%r: unreadable error %r", text, e)
        require(e.type == "syntax-error", "%r: a syntax error has the type %r", text, e.type)
        at = position(e, text)
        require(at is not None, "%r: the error %r has no position", text, e.message)
        word = at[1] is not None
        if first is None or (word not in kinds and at[0] < first[0]):
            first = at
        kinds.add(word)
        if at[1] is None:
            ok = e.fragment is None or (text.startswith(e.fragment) and len(e.fragment) >= at[0])
        else:
            ok = e.fragment == text[: at[1]]
        require(ok, "%r: the error at %s has the fragment %r", text, at, e.fragment)
    require(first[0] == pos, "%r: goes wrong at %d (%s error), the reported position is %d: %r", text, pos, what, first[0], [(e.message, str(e.position)) for e in errs])
    if what == "syntax" and first[1] is not None:
        toks, _ = LEXER.scan(text)
        end = [b for _, a, b in toks if a == pos]
        require(first[1] == (end[0] if end else pos), "%r: the word at %d is reported as %d:%d", text, pos, *first)
    require(said.endswith(errs[0].message), "%r: the exception says %r, the first error %r", text, said, errs[0].message)
    return what, pos == len(text), len(errs)


SEPS = [" ", "\n", "\r\n  ", "\u2003\n\n\t"]


def join(words, style):
    if style < len(SEPS):
        return SEPS[style].join(words)
    if style == len(SEPS):
        return "\n" + "\n".join(words) + " \n"
    return S.layout(list(words), "compact")


STYLES = range(len(SEPS) + 2)
SEMI = range(0, len(SEPS) + 2, 2)


def c18_prefix(item):
    """viable prefix x wrong word (alone, followed by a completion, followed by another wrong word)"""
    prefix, styles = item
    st = PDA.start
    for t in prefix:
        st = PDA.step(st, t)
    comp = tuple(PDA.completion(st))
    obs, n = set(), 0
    seqs = [] if PDA.accepts(st) else [prefix]
    for t in TOKENS:
        if PDA.step(st, t) is None:
            seqs += [prefix + (t,), prefix + (t,) + comp, prefix + (t, ")", "=")]
    for w in seqs:
        words = [M.word(t, k) for k, t in enumerate(w)]
        for y in styles:
            obs.add(judge_error(join(words, y)))
            n += 1
    return {"obs": (prefix, tuple(sorted(map(str, obs)))), "trans": len(TOKENS), "traces": n}


BADTEXT = ["%", "-", '"', "'", "\\", "\u00df", "\U0001f600", '"\\q"', "'\\x4'", "\u200b", "\x00", "_", "a_", "1a", "a-", "-a", "%%", "% \n%"]


def c18_lexical(item):
    """a piece no rule matches, in every gap of a word sequence"""
    words, b = item
    words = list(words)
    n, obs = 0, set()
    for g in range(len(words) + 1):
        for y in (0, 1, 3, 5):
            obs.add(judge_error(join(words[:g] + [b] + words[g:], y)))
            n += 1
    return {"obs": (item, tuple(sorted(map(str, obs)))), "trans": n, "traces": n}


def c18_state(item):
    """every automaton state x wrong word"""
    return c18_prefix((item, (0, 1)))


def c18_text(text):
    return {"obs": (text, judge_error(text))}


def configured():
    for name, op, form, loc in S.CONFIGS:
        yield QueryParser(default_identifier=name, default_operator=impl.OPS_INV[op], unicode_normalization_form=form, enableSourceLocations=loc)


def c18_cfg(text):
    got = {judge_error(text, p) for p in configured()}
    return {"obs": (text, tuple(sorted(map(str, got)))), "traces": len(S.CONFIGS)}


def c18_dim(item):
    """a long or deep query cut off, with a stray word at the end, in the middle, at both ends"""
    q = S.dimension_query(item)
    toks, _ = LEXER.scan(q)
    n = 0
    mid = toks[len(toks) // 2][1]
    for t in (q + " ]", q + "\n%", q[:mid] + " & " + q[mid:], q[:mid] + "\n? * " + q[mid:], q[:mid] + "\\" + q[mid:], q[: toks[-1][1]], ") " + q, q + '"'):
        judge_error(t)
        n += 1
    return {"obs": item, "traces": n}


def c18_far(item):
    q = S.dimension_query(item)
    for t in (q + " ]", q + "\n%", q + '"a', q + " within"):
        judge_error(t)
    return {"obs": item, "traces": 4}


def c18_edit(item):
    """all single-character deletions and insertions of a query"""
    text, k = item
    n, obs = 0, set()
    texts = {text[:k] + text[k + 1 :], text[:k]}
    for c in "\"'[](){}|&!/=:,+*?\\% \n1axs":
        texts.add(text[:k] + c + text[k:])
        texts.add(text[:k] + c + text[k + 1 :])
    for t in sorted(texts):
        obs.add(judge_error(t))
        n += 1
    return {"obs": (item, len(obs)), "traces": n}


def C18(ctx):
    L = ctx.pick(3, 4)
    pre = [p for p, _ in M.prefixes(L)]
    ctx.run("viable prefixes x wrong words x line layouts", c18_prefix, [(p, tuple(STYLES) if len(p) < L else tuple(SEMI)) for p in pre], f"prefix length <= {L}, {len(STYLES)} layouts")
    d = ctx.pick(2, 3)
    acc, ntr = M.reach(d)
    ctx.run("automaton states x wrong words", c18_state, list(acc.values()), f"all {len(acc)} states with nesting <= {d}", states=len(acc))
    nq, ne = ctx.pick((3, 4), (4, 6))
    seqs = [tuple(w) for w in S.small_queries(nq, ne)] + [tuple(x.split()) for x in ('"a" within', '[ a', '( "b" |', '"a" }', '[ ] = " b"')]
    bads = ctx.pick(BADTEXT[:8] + BADTEXT[-1:], BADTEXT)
    ctx.run("unrecognisable pieces in every gap", c18_lexical, [(w, b) for w in seqs for b in bads], f"query words <= {nq}, expression words <= {ne}, {len(bads)} pieces, 4 layouts")
    ctx.run("base queries", c18_text, S.BASE + ["\n" + b + "\n" for b in S.BASE], "one per construct, and on a second line")
    ctx.run("features together, with a mistake", c18_text, S.feature_mistakes(ctx.pick(1, 1)), "a word left out, doubled, a wrong piece in between; up to %d of 12 features away from three base queries" % ctx.pick(1, 1))
    ctx.run("other configurations", c18_cfg, S.BASE + S.feature_mistakes(ctx.pick(0, 1)) + S.many_mistakes(S.sizes(8)), f"{len(S.CONFIGS)} ways to set up the parser")
    ctx.run("many mistakes", c18_text, S.many_mistakes(S.sizes(130) + S.big_sizes(ctx.pick(257, 2049))), "one mistake over and over: up to 40 times, around powers of two and round numbers")
    base = ctx.pick(S.BASE[::3], S.BASE)
    ctx.run("character edits", c18_edit, [(b, k) for b in base for k in range(len(b) + 1)], "distance 1")
    ctx.run("sizes", c18_dim, S.dimension_items(cap=ctx.pick(70, None)), "every dimension up to its limit")
    far = ["pattern-length", "leading-space", "lines", "name-length", "sequence", "wildcards"]
    ctx.run("far into the query", c18_far, [(d, n) for d in far for n in S.big_sizes(ctx.pick(1025 if d in ("sequence", "wildcards") else 20001, 70000))], "around powers of two and round numbers")
    ctx.assumptions.append("position of an unrecognisable piece: the start of the longest-match attempt that fails (model automaton)")


# ---------------------------------------------------------------- C03
@contextlib.contextmanager
def listening():
    """everything written to standard output or standard error, through Python or through the descriptors"""
    out, fd = io.StringIO(), os.memfd_create("fcsql-check")
    keep = sys.stdout, sys.stderr
    saved = os.dup(1), os.dup(2)
    said = []
    try:
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout = sys.stderr = out
        yield said
        said.append(out.getvalue())
        said.append(os.pread(fd, 200, 0).decode("utf-8", "replace") if os.fstat(fd).st_size else "")
    finally:
        sys.stdout, sys.stderr = keep
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for f in (*saved, fd):
            os.close(f)


def total(text, deep=False):
    """outcome of every high-level function on a text"""
    got = []
    for k in range(3):
        try:
            if k == 0:
                node = fcsql.parse(text)
            else:
                p = QueryParser(enableSourceLocations=k == 1, unicode_normalization_form="NFC" if k == 1 else None)
                node = p.parse(text)
            require(isinstance(node, QueryNode), "%r: parsing gives %r", text, node)
            got.append(True)
        except QueryParserException as ex:
            msg = str(ex)
            require(msg.strip(), "%r: no message", text)
            require(deep or "unexpected exception" not in msg, "%r: %s (%r)", text, msg, ex.__cause__)
            require(msg.strip() != "unable to parse query:" and not msg.endswith(": ?"), "%r: message without content: %r", text, msg)
            got.append(False)
    if not deep:
        require(got == [got[0]] * 3, "%r: the ways of parsing disagree: %r", text, got)
    c = fcsql.can_parse(text)
    require(c is got[0] or (deep and c in (True, False)), "%r: can_parse() gives %r, parse() %s", text, c, "a tree" if got[0] else "raises")
    if not deep:
        v = fcsql.validate(text)
        e = fcsql.validate(text, return_errors=True)
        require(v in (True, False) and isinstance(e, list), "%r: validate() gives %r, %r", text, v, e)
        require(got[0] or not v, "%r: rejected by parse(), valid for validate()", text)
        require(got[0] or e, "%r: rejected by parse(), no error reported by validate()", text)
    return got[0]


def c03_cfg(text):
    """typed and silent however the parser is set up"""
    want = M.status(text)[0] == "ok"
    with listening() as said:
        for c, p in zip(S.CONFIGS, configured()):
            try:
                node = p.parse(text)
            except QueryParserException as ex:
                msg = str(ex)
                require(not want and msg.strip() and "unexpected exception" not in msg, "%r (%s): %s (%r)", text, c, msg, ex.__cause__)
            else:
                require(want and isinstance(node, QueryNode), "%r (%s): parsing gives %r", text, c, node)
    require(not any(said), "%r: printed %r", text, "".join(said)[:300])
    return {"obs": (text, want), "traces": len(S.CONFIGS)}


def many(texts):
    obs, n = [], 0
    text = ""
    with listening() as said:
        for text in texts:
            obs.append(total(text))
            n += 1
    if any(said):
        for text in texts:
            with listening() as one:
                total(text)
            require(not any(one), "%r: printed %r", text, "".join(one)[:300])
        raise Violation(f"one of {texts[0]!r} ... {texts[-1]!r} printed {''.join(said)[:300]!r}")
    return {"obs": (texts[0], len(texts), obs.count(True)), "traces": n * 6, "trans": n}


RICH = list("\"'[](){}|&!/=:,+*?\\ \naswi-10%_") + ["\u00fc", "\U0001f600", "\ud800", "\x00", "\r", "\u2028", "\u0301"]
LEAN = list("\"'[](|&!/=a1\\s ")
CHUNKS = ['"a"', "'b'", "[", "]", "(", ")", "|", "&", "!", "/", "{", "}", "1", ",", "+", "x", "=", "!=", ":", "within", "s", "i", '"', "\\", "%", '[a="b"]', "{2,1}", '"\\U00110000"']


def c03_rich(prefix):
    return many([prefix + c for c in RICH])


def c03_lean(prefix):
    return many([prefix + a + b for a in LEAN for b in LEAN])


def c03_chunks(prefix):
    return many([sep.join(prefix + (c,)) for c in CHUNKS for sep in (" ", "")])


def c03_edit(item):
    text, k = item
    out = {text[:k] + text[k + 1 :], text[:k], text[k:]}
    for c in RICH:
        out.add(text[:k] + c + text[k:])
        out.add(text[:k] + c + text[k + 1 :])
    return many(sorted(out))


def c03_escape(a):
    out = []
    for b in range(128):
        s = "\\" + chr(a) + chr(b)
        out += ['"%s"' % s, "'%s" % s, '"\\x%s%s"' % (chr(a), chr(b)), '"\\u0%s%s0"' % (chr(a), chr(b))]
    return many(out)


def c03_points(item):
    lo, hi = item
    out = []
    for cp in range(lo, hi):
        c = chr(cp)
        out += [c, '"%s"' % c, "[a%s='b']" % c, '"\\%s"' % c]
    return many(out)


def c03_codes(item):
    """escaped code points: borders of every power of two in every width"""
    out = []
    for f in ('"\\U%08X"', "[a='\\U%08x'/i]", '"a" | "\\U%08X\\U%08X"'):
        out.append(f % ((item,) * f.count("%")))
    return many(out)


def c03_deep(item):
    d, n = item
    q = S.DIMENSIONS[d][0](n)
    with listening() as said:
        got = [total(q, deep=True), total(q[: len(q) // 2], deep=True), total(q + ")", deep=True)]
    require(not any(said), "%s x %d: printed %r", d, n, "".join(said)[:300])
    return {"obs": (item, tuple(got)), "traces": 12}


def c03_one(text):
    return many([text])


def c03_numbers(n):
    out = []
    for d in "190":
        k = d * n
        out += ['"a"{%s}' % k, '"a"{%s,}' % k, '"a"{,%s}' % k, '"a"{1,%s}' % k, '"a"{%s,1}' % k, '"a"{%s,%s}' % (k, k), '("a"{%s})' % k, "[]{%s" % k, k]
    return many(out)


def c03_sizes(item):
    q = S.dimension_query(item)
    h = len(q) // 2
    return many([q, q[:h], q + "\\", q[:h] + "\x00" + q[h:]])


class Text(str):
    """a text that is more than a plain string, as template and markup libraries hand out"""

    __slots__ = ("origin",)


def c03_kinds(text):
    t = Text(text)
    t.origin = "somewhere"
    got = many([t])
    require(impl.outcome(t) == impl.outcome(text), "%r: an instance of a subclass of str gives\n  %r\na plain one\n  %r", text, impl.outcome(t), impl.outcome(text))
    return got


DEEP = ["query-groups", "expression-groups", "not-groups", "negations", "repeated-groups", "or", "and", "and-in-or", "alternatives", "sequence"]


def C03(ctx):
    n = ctx.pick(3, 4)
    ctx.run("all strings", c03_rich, ["".join(p) for k in range(n) for p in itertools.product(RICH, repeat=k)] , f"length <= {n} over {len(RICH)} characters")
    m = ctx.pick(2, 4)
    ctx.run("longer strings", c03_lean, ["".join(p) for k in range(m + 1) for p in itertools.product(LEAN, repeat=k)], f"length <= {m + 2} over {len(LEAN)} characters")
    k = ctx.pick(2, 3)
    ctx.run("all sequences of words and broken words", c03_chunks, [p for j in range(k + 1) for p in itertools.product(CHUNKS, repeat=j)], f"length <= {k + 1} over {len(CHUNKS)} words, spaced and fused")
    base = S.BASE
    ctx.run("character edits of base queries", c03_edit, [(b, i) for b in (base if ctx.thorough else base[::2]) for i in range(len(b) + 1)], f"distance 1 over {len(RICH)} characters")
    ctx.run("characters after a backslash", c03_escape, list(range(128)), "all pairs of ASCII characters, three escape forms")
    if ctx.thorough:
        blocks = [(a, a + 64) for a in range(0, 0x110000, 64)]
        note = "every code point"
    else:
        rs = [(0, 0x500), (0x1680, 0x16C0), (0x2000, 0x2080), (0x3000, 0x3040), (0xD7C0, 0xE040), (0xFE00, 0xFE40), (0xFEC0, 0x10040), (0x1F600, 0x1F640), (0x10FFC0, 0x110000)]
        blocks = [(a, a + 64) for lo, hi in rs for a in range(lo, hi, 64)]
        note = "code points of " + ", ".join("%X-%X" % (a, b - 1) for a, b in rs)
        pts = [c for c in S.mined().codepoints() if not any(a <= c < b for a, b in rs)]
        blocks += [(c, c + 1) for c in pts]
    ctx.run("each character in four contexts", c03_points, blocks, note)
    cps = sorted({v for b in range(33) for v in ((1 << b) - 1, 1 << b, (1 << b) + 1) if v < 1 << 32} | {0x10FFFE, 0x10FFFF, 0x110000, 0xD800, 0xDFFF, 0xFFFE})
    ctx.run("escaped code points", c03_codes, cps, "around every power of two")
    ctx.run("sizes", c03_sizes, S.dimension_items(cap=ctx.pick(30, 130)), "every dimension up to its limit")
    ctx.run("other configurations", c03_cfg, S.BASE + S.features(ctx.pick(1, 2)) + S.feature_mistakes(ctx.pick(0, 1)) + ["", " ", "\ud800", "%", '"a"{2,1}', "'a'/iI", '"\\U00110000"'], f"{len(S.CONFIGS)} ways to set up the parser")
    ctx.run("many mistakes", c03_one, S.many_mistakes(S.sizes(130) + S.big_sizes(ctx.pick(129, 1025))), "one mistake over and over: up to 40 times, around powers of two and round numbers")
    ctx.run("big sizes", c03_sizes, S.big_items(ctx.pick(513, 2049), ctx.pick(20001, 140000)), "number of elements, lengths of words and gaps, around powers of two and round numbers")
    ctx.run("texts of a subclass of str", c03_kinds, S.BASE + ["", " ", "%", "\ud800"] + ["\n" + b for b in S.BASE], "one per construct")
    ctx.run("long numbers", c03_numbers, S.big_sizes(ctx.pick(10001, 100001)) + [4299, 4300, 4301, 4302, 8600], "digits, in every place of a repetition")
    deep = ctx.pick([50, 120, 200, 300], [50, 100, 110, 120, 130, 140, 150, 160, 180, 200, 250, 300, 350, 400, 500, 700])
    ctx.run("beyond the interpreter stack", c03_deep, [(d, x) for d in DEEP for x in deep], f"nesting up to {deep[-1]}: typed and silent, any message")
