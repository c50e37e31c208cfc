"""C26 C27: low-level parsing, shipped grammar files"""
import contextlib
import io
import itertools
import sys

from antlr4 import CommonTokenStream, InputStream, ParserRuleContext, ParseTreeWalker, TerminalNode, Token
from antlr4.error.ErrorListener import ErrorListener
from antlr4.tree.Tree import ErrorNode

from mc import boot  # noqa: F401
import fcsql
from fcsql import FCSParserListener, FCSParserVisitor
from fcsql.FCSLexer import FCSLexer
from fcsql.FCSParser import FCSParser
from fcsql.parser import QueryParser, QueryParserException, SimpleWithinScope

from mc import g4, impl, model as M, spaces as S
from mc.automata import equivalent
from mc.checks_err import BADTEXT
from mc.core import Violation, require, short
from mc.model import LEXER, PDA, TOKENS


# ---------------------------------------------------------------- C26
def rule_of(ctx):
    return FCSParser.ruleNames[ctx.getRuleIndex()]


class Watch(FCSParserListener):
    """specific and general events in order"""

    def __init__(self):
        self.ev = []

    def enterEveryRule(self, ctx):
        self.ev.append(("every+", id(ctx)))

    def exitEveryRule(self, ctx):
        self.ev.append(("every-", id(ctx)))

    def visitTerminal(self, node):
        self.ev.append(("leaf", id(node)))

    def visitErrorNode(self, node):
        self.ev.append(("error", id(node)))


class Tour(FCSParserVisitor):
    def __init__(self):
        self.ev = []

    def visitTerminal(self, node):
        self.ev.append(("leaf", id(node)))
        return super().visitTerminal(node)


def _mk():
    for r in FCSParser.ruleNames:
        n = r[0].upper() + r[1:]

        def enter(self, ctx, r=r, n=n):
            self.ev.append(("+" + r, id(ctx)))
            getattr(FCSParserListener, "enter" + n)(self, ctx)

        def exit_(self, ctx, r=r, n=n):
            self.ev.append(("-" + r, id(ctx)))
            getattr(FCSParserListener, "exit" + n)(self, ctx)

        def visit(self, ctx, r=r, n=n):
            self.ev.append(("+" + r, id(ctx)))
            x = getattr(FCSParserVisitor, "visit" + n)(self, ctx)
            self.ev.append(("-" + r, id(ctx)))
            return x

        setattr(Watch, "enter" + n, enter)
        setattr(Watch, "exit" + n, exit_)
        setattr(Tour, "visit" + n, visit)


_mk()


def expected_events(tree):
    """own traversal: (rule events, listener events, leaves)"""
    listener, visitor, leaves = [], [], []

    def go(t, parent):
        if isinstance(t, TerminalNode):
            require(not isinstance(t, ErrorNode), "an error node in an accepted tree")
            require(t.getParent() is parent, "a leaf names another parent")
            listener.append(("leaf", id(t)))
            visitor.append(("leaf", id(t)))
            leaves.append(t.getSymbol())
            return
        require(isinstance(t, ParserRuleContext), "tree contains %r", type(t))
        require(t.parentCtx is parent, "a context names another parent")
        r = rule_of(t)
        listener.extend([("every+", id(t)), ("+" + r, id(t))])
        visitor.append(("+" + r, id(t)))
        for c in t.getChildren():
            go(c, t)
        listener.extend([("-" + r, id(t)), ("every-", id(t))])
        visitor.append(("-" + r, id(t)))

    go(tree, None)
    return listener, visitor, leaves


def low(text):
    """antlr_parse with the console listener's output swallowed: tree or None"""
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            return fcsql.antlr_parse(text)
        except fcsql.SyntaxError as ex:
            require(str(ex), "%r: empty message", text)
            return None


def judge_low(text):
    want = M.status(text)
    ok = want[0] in ("ok", "static")
    tree = low(text)
    if not ok:
        require(tree is None, "%r: goes wrong at %s, antlr_parse() returns %s", text, want[1], tree is not None and tree.toStringTree(FCSParser.ruleNames))
        return want[0]
    require(tree is not None, "%r: a sentence of the language, antlr_parse() raises", text)
    require(isinstance(tree, FCSParser.QueryContext), "%r: root is %r", text, type(tree))
    le, ve, leaves = expected_events(tree)
    toks, _ = LEXER.scan(text)
    got = [(M.ANTLR_NAMES.get(FCSLexer.symbolicNames[t.type]), t.start, t.stop + 1) for t in leaves if t.type != Token.EOF]
    require(got == toks, "%r: words of the tree %r, words of the query %r", text, got, toks)
    require([t.type == Token.EOF for t in leaves].count(True) <= 1 and (not leaves or Token.EOF not in [t.type for t in leaves[:-1]]), "%r: end of input inside of the tree", text)
    require(all(t.text == text[t.start : t.stop + 1] for t in leaves if t.type != Token.EOF), "%r: words of the tree have another text", text)
    w = Watch()
    ParseTreeWalker().walk(w, tree)
    require(w.ev == le, "%r: listener events\n  expected %r\n  observed %r", text, names(le), names(w.ev))
    ParseTreeWalker.DEFAULT.walk(FCSParserListener(), tree)
    v = Tour()
    v.visit(tree)
    require(v.ev == ve, "%r: visitor events\n  expected %r\n  observed %r", text, names(ve), names(v.ev))
    FCSParserVisitor().visit(tree)
    t2 = low(text)
    require(t2.toStringTree(FCSParser.ruleNames) == tree.toStringTree(FCSParser.ruleNames), "%r: parsing again gives another tree", text)
    return len(le)


def names(ev):
    return " ".join(x[0] for x in ev)


def c26_prefix(prefix):
    st = PDA.start
    for t in prefix:
        st = PDA.step(st, t)
    comp = tuple(PDA.completion(st))
    obs, n = [], 0
    for w in dict.fromkeys([prefix, prefix + comp] + [prefix + (t,) + (tuple(PDA.completion(PDA.step(st, t))) if PDA.step(st, t) is not None else comp) for t in TOKENS]):
        obs.append(judge_low(M.text_of(w)))
        n += 1
    return {"obs": (prefix, tuple(obs)), "trans": len(TOKENS), "traces": n}


def c26_words(words):
    obs = [judge_low(S.layout(list(words), s)) for s in ("spaced", "compact", "wild")]
    return {"obs": (words, tuple(obs)), "trans": len(words), "traces": 3}


def c26_bad(item):
    words, b = item
    n = 0
    for g in range(len(words) + 1):
        for sep in (" ", "", "\n"):
            w = list(words[:g]) + [b] + list(words[g:])
            judge_low(sep.join(w))
            n += 1
    return {"obs": item, "traces": n}


def c26_text(text):
    return {"obs": (text, judge_low(text))}


def c26_dim(item):
    q = S.dimension_query(item)
    for t in (q, q + " ]", q + " %", "\\" + q, q[: len(q) // 2]):
        judge_low(t)
    return {"obs": item, "traces": 5}


def C26(ctx):
    L = ctx.pick(4, 5)
    ctx.run("viable prefixes x next word x completion", c26_prefix, [p for p, _ in M.prefixes(L)], f"prefix length <= {L}")
    nq, ne = ctx.pick((5, 6), (6, 8))
    ctx.run("all small queries", c26_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}, three layouts")
    nq, ne = ctx.pick((3, 4), (4, 5))
    ctx.run("unrecognisable pieces in every gap", c26_bad, [(w, b) for w in S.small_queries(nq, ne) for b in BADTEXT], f"query words <= {nq}, expression words <= {ne}, {len(BADTEXT)} pieces")
    ctx.run("base queries", c26_text, S.BASE, "one per construct")
    ctx.run("features together", c26_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("features together, with a mistake", c26_text, S.feature_mistakes(ctx.pick(1, 1)), "a word left out, doubled, a wrong piece in between; up to %d of 12 features away from three base queries" % ctx.pick(1, 1))
    ctx.run("many mistakes", c26_text, S.many_mistakes(S.sizes(130) + S.big_sizes(ctx.pick(129, 1025))), "one mistake over and over: up to 40 times, around powers of two and round numbers")
    ctx.run("sizes", c26_dim, S.dimension_items(cap=ctx.pick(40, 130)), "every dimension up to its limit")
    ctx.run("big sizes", c26_dim, S.big_items(ctx.pick(513, 2049), ctx.pick(5001, 70001)), "number of elements, lengths of words and gaps, around powers of two and round numbers")
    ctx.assumptions.append("what antlr_parse() prints for rejected texts (the default console listener) is not part of the property")


# ---------------------------------------------------------------- C27
class Quiet(ErrorListener):
    def __init__(self):
        self.n = 0

    def syntaxError(self, *a):
        self.n += 1


_G = {}


def grammar():
    if not _G:
        _G["lex"] = g4.lexer_dfa()
        _G["rtn"] = g4.parser_rtn()
        _G["words"] = sample_words(_G["lex"])
    return _G


def sample_words(dfa):
    """a shortest word of every class, preferring letters that cannot be mistaken"""
    acc = {0: ""}
    todo = [0]
    out = {}
    for s in todo:
        a = dfa.accept[s]
        if a is not None:
            out.setdefault(dfa.rules[a][0], acc[s])
        for c, t in enumerate(dfa.trans[s]):
            if t is not None and t not in acc:
                acc[t] = acc[s] + chr(dfa.cuts[c])
                todo.append(t)
    return out


def packaged_tokens(text):
    lx = FCSLexer(InputStream(text))
    lx.removeErrorListeners()
    q = Quiet()
    lx.addErrorListener(q)
    out = []
    while True:
        t = lx.nextToken()
        if t.type == Token.EOF:
            return out, q.n
        nm = FCSLexer.symbolicNames
        out.append((nm[t.type] if t.type < len(nm) else t.type, t.start, t.stop + 1))


def packaged_accepts(text):
    lx = FCSLexer(InputStream(text))
    p = FCSParser(CommonTokenStream(lx))
    q = Quiet()
    for r in (lx, p):
        r.removeErrorListeners()
        r.addErrorListener(q)
    p.query()
    return q.n == 0


def same_words(text):
    toks, err = grammar()["lex"].scan(text)
    got, n = packaged_tokens(text)
    if err is None:
        require(n == 0 and got == toks, "%r: grammar file gives %r, packaged lexer %r (%d errors)", text, toks, got, n)
    else:
        require(n > 0, "%r: the grammar file has no word at %d, the packaged lexer finds %r", text, err, got)
        require([t for t in got if t[2] <= err] == toks, "%r: grammar file gives %r before %d, packaged lexer %r", text, toks, err, got)
    return err is None, tuple(t[0] for t in toks)


def c27_state(item):
    """one state of the grammar file's scanner automaton, one character class: both ends, then a tail"""
    acc, lo, hi = item
    n, obs = 0, set()
    for c in {lo, hi}:
        for tail in ("", '"', "'", "a", " a", "1", "-"):
            obs.add(same_words(acc + chr(c) + tail))
            n += 1
    return {"obs": (item, len(obs)), "trans": 14, "traces": n}


def g4_accepts(toks):
    r = grammar()["rtn"]
    s = r.start
    for t in toks:
        s = r.step(s, t)
    return () in s or () in r.step(s, "EOF")


def sentence(toks):
    w = grammar()["words"]
    return " ".join(w.get(t, "\x00") for t in toks)


def same_sentence(toks):
    text = sentence(toks)
    got, n = packaged_tokens(text)
    require(n == 0 and [t[0] for t in got] == list(toks), "%r: expected word classes %r, packaged lexer gives %r", text, toks, [t[0] for t in got])
    want, have = g4_accepts(toks), packaged_accepts(text)
    require(want == have, "%r: the grammar file %s it, the packaged parser %s it", text, "admits" if want else "excludes", "accepts" if have else "rejects")
    if want:
        try:
            fcsql.parse(text)
        except QueryParserException as ex:
            raise Violation(f"{text!r}: admitted by the grammar, not understood when building the tree: {ex}")
    return want


def c27_extend(item):
    """access words of a product state; every next word; alone and completed"""
    acc, comp, nxt = item
    n, k = 0, 0
    for w in dict.fromkeys([acc, acc + comp] + [acc + (t,) + c for t, c in nxt] + [acc + (t,) for t, _ in nxt]):
        k += same_sentence(w)
        n += 1
    return {"obs": (acc, k), "trans": len(nxt), "traces": n}


def product(limit, words, openers, closers):
    """reachable pairs of (grammar file, packaged automaton) states"""
    P, Q = grammar()["rtn"], g4.atn_rtn(FCSParser)
    start = (P.start, Q.start)
    acc = {start: ()}
    level = {start: 0}
    edges = {}
    todo = [start]
    n = 0
    for st in todo:
        p, q = st
        outs = []
        for t in words + ["EOF"]:
            a, b = P.step(p, t), Q.step(q, t)
            n += 1
            if bool(a) != bool(b) or (() in a) != (() in b):
                return acc, edges, n, (acc[st], t, bool(a))
            if not a or t == "EOF":
                continue
            d = level[st] + (t in openers) - (t in closers)
            if (a, b) not in acc:
                if d > limit:
                    continue
                acc[a, b] = acc[st] + (t,)
                level[a, b] = d
                todo.append((a, b))
            outs.append((t, (a, b)))
        edges[st] = outs
    return acc, edges, n, None


def completions(acc, edges):
    P = grammar()["rtn"]
    comp = {}
    todo = []
    back = {}
    for s, outs in edges.items():
        if () in P.step(s[0], "EOF") or () in s[0]:
            comp[s] = ()
            todo.append(s)
        for t, d in outs:
            back.setdefault(d, []).append((t, s))
    for s in todo:
        for t, b in back.get(s, ()):
            if b not in comp:
                comp[b] = (t,) + comp[s]
                todo.append(b)
    return comp


def useful(dfa, rule):
    """states from which a word of the rule can still be reached"""
    good = {s for s, a in enumerate(dfa.accept) if a is not None and dfa.rules[a][0] == rule}
    ch = True
    while ch:
        ch = False
        for s, row in enumerate(dfa.trans):
            if s not in good and any(t in good for t in row if t is not None):
                good.add(s)
                ch = True
    return good


def all_words(dfa, rule, maxlen):
    good = useful(dfa, rule)
    out = []

    def go(s, w):
        a = dfa.accept[s]
        if a is not None and dfa.rules[a][0] == rule:
            out.append(w)
        if len(w) < maxlen:
            for c, t in enumerate(dfa.trans[s]):
                if t in good:
                    hi = dfa.cuts[c + 1] if c + 1 < len(dfa.cuts) else 0x110000
                    for x in range(dfa.cuts[c], hi):
                        go(t, w + chr(x))

    go(0, "")
    return out


def escapes(dfa, quote):
    """every escape the grammar file admits inside a string; long ones with at most two digits other than the
    first of the alphabet"""
    s = dfa.trans[0][dfa.cls(ord(quote))]
    out = []

    def go(s, w, dev):
        if len(w) > 12:
            return
        xs = []
        for c, t in enumerate(dfa.trans[s]):
            if t is not None:
                hi = dfa.cuts[c + 1] if c + 1 < len(dfa.cuts) else 0x110000
                if hi - dfa.cuts[c] > 1000:
                    if len(w) > 1:
                        out.append(w)
                    return  # back among ordinary characters
                xs += [(chr(x), t) for x in range(dfa.cuts[c], hi)]
        for k, (c, t) in enumerate(xs):
            d = dev + (k > 0 and len(w) > 1)
            if len(w) < 4 or d <= 2:
                go(t, w + c, d)

    back = dfa.trans[s][dfa.cls(ord("\\"))]
    if back is not None:
        go(back, "\\", 0)
    return out


def c27_escape(chunk):
    n = 0
    for quote, esc in chunk:
        for text in (f"{quote}{esc}{quote}", f"[a={quote}x{esc}y{quote}]"):
            try:
                fcsql.parse(text)
            except QueryParserException as ex:
                big = len(esc) > 2 and all(c in "0123456789abcdefABCDEF" for c in esc[2:]) and int(esc[2:], 16) > 0x10FFFF
                require(big and "codepoint" in str(ex), "%r: the grammar admits the escape %s, building the tree fails: %s", text, esc, ex)
            n += 1
    return {"obs": chunk[0], "traces": n}


def c27_scope(word):
    node = fcsql.parse(f'"a" within {word}')
    sc = node.get_within().scope
    require(isinstance(sc, SimpleWithinScope), "scope %r", sc)
    return {"obs": str(sc)}


def c27_flags(word):
    for text in (f'"a"/{word}', f"[a='b'/{word}]"):
        try:
            node = fcsql.parse(text)
        except QueryParserException as ex:
            require(len(set(word)) > 1 and "mutually exclusive" in str(ex), "%r: the grammar admits the flags, building the tree fails: %s", text, ex)
            continue
        fl = set().union(*[set(n.regex_flags or ()) for n in impl.nodes(node) if hasattr(n, "regex_flags")])
        require(fl, "%r: no flags in the tree", text)
    return {"obs": word, "traces": 2}


def C27(ctx):
    g = grammar()
    dfa = g["lex"]
    atn = g4.AtnDfa(FCSLexer)
    w, ns, nt = equivalent(dfa, atn)
    ctx.states += ns
    ctx.transitions += nt
    ctx.extra["scanner_product"] = {"grammar_file_states": len(dfa.trans), "packaged_states": len(atn.trans), "product_states": ns, "transitions": nt, "bound": "none: all texts"}
    if w is not None:
        ctx.violate("scanner automata", f"after {w!r} the grammar file and the packaged lexer recognise different words", same_text, [w])
        return
    acc = {0: ""}
    todo = [0]
    for s in todo:
        for c, t in enumerate(dfa.trans[s]):
            if t is not None and t not in acc:
                acc[t] = acc[s] + chr(dfa.cuts[c])
                todo.append(t)
    ends = lambda c: (dfa.cuts[c], dfa.cuts[c + 1] - 1 if c + 1 < len(dfa.cuts) else 0x10FFFF)  # noqa: E731
    ctx.run("scanner states x character classes on the packaged lexer", c27_state,
            [(acc[s], *ends(c)) for s in acc for c in range(len(dfa.cuts))] if ctx.thorough else
            [(acc[s], *ends(c)) for k, s in enumerate(sorted(acc)) for c in range(len(dfa.cuts)) if dfa.trans[s][c] is not None or (k + c) % 4 == 0],
            "all states, " + ctx.pick("all moving classes and every fourth other one", "all classes"), states=len(acc))
    # sentences
    words = [n for n in g["words"] if not dict((a, b) for a, b in dfa.rules)[n]]
    opening = [t for t in words if g["words"][t] in "([{"]
    closing = [t for t in words if g["words"][t] in ")]}"]
    d = ctx.pick(2, 3)
    pairs, edges, n, bad = product(d, words, opening, closing)
    ctx.states += len(pairs)
    ctx.transitions += n
    ctx.extra["sentence_product"] = {"states": len(pairs), "transitions": n, "bound": f"bracket nesting <= {d}, any length"}
    if bad:
        ctx.violate("sentence automata", f"after {sentence(bad[0])!r} the grammar file {'admits' if bad[2] else 'excludes'} {bad[1]}, the packaged automaton does not agree", same_seq, [bad[0] + (bad[1],)])
        return
    comp = completions(pairs, edges)
    lim = 2
    items = []
    for st, a in pairs.items():
        if st not in edges:
            continue
        depth = sum(t in opening for t in a) - sum(t in closing for t in a)
        if depth > lim:
            continue
        tgt = dict(edges[st])
        base = comp.get(st, ())
        items.append((a, base, tuple((t, comp.get(tgt[t], ()) if t in tgt else base) for t in words)))
    ctx.run("product states x next word x completion on the packaged parser", c27_extend, items, f"nesting <= {lim}", states=len(items))
    esc = [(q, e) for q in "\"'" for e in escapes(dfa, q)]
    ctx.run("escapes of the grammar file", c27_escape, [tuple(esc[i : i + 50]) for i in range(0, len(esc), 50)], f"{len(esc)} escapes, two positions")
    # scope and flag words, wherever the grammar names them
    sc = all_words(dfa, "SIMPLE_WITHIN_SCOPE", 16)
    ctx.run("scopes of the grammar file", c27_scope, sc, "all words")
    fl = all_words(dfa, "REGEXP_FLAGS", ctx.pick(3, 4))
    ctx.run("flags of the grammar file", c27_flags, fl, "all flag words up to length %d" % ctx.pick(3, 4))
    ctx.assumptions.append("the reader in mc/g4.py understands the grammar notation used in the shipped files")


def same_text(text):
    return {"obs": same_words(text)}


def same_seq(toks):
    toks = tuple(t for t in toks if t != "EOF")
    same_sentence(toks)
    return {"obs": toks}
