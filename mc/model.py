"""Reference model of FCS-QL 2.0, written from the language documentation (precedence comments,
README, class documentation), independent of ANTLR and of the code under test.

* LEX: lexical rules -> deterministic automaton (``LEXER``)
* Pda: word-level pushdown automaton (LL(1) predictive machine): state = tuple of pending symbols
* parse(text, cfg): reference syntax tree, or the reason of rejection
"""
import re
import unicodedata
from collections import namedtuple

from mc.automata import Dfa, alt, ch, lit, notch, opt, plus, seq, star

# ---------------------------------------------------------------- lexical rules
WS_CHARS = (
    "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a"
    "\u2028\u2029\u202f\u205f\u3000"
)
HEX = ch(("0", "9"), ("a", "f"), ("A", "F"))
ESC = seq(
    ch("\\"),
    alt(
        ch(*"\\'\"nt.^$*+?(){}[]|"),
        seq(ch("x"), HEX, HEX),
        seq(ch("u"), *[HEX] * 4),
        seq(ch("U"), *[HEX] * 8),
    ),
)
LETTER = ch(("a", "z"), ("A", "Z"))
ALNUM = ch(("a", "z"), ("A", "Z"), ("0", "9"))
SCOPES = {
    "sentence": "Sentence",
    "s": "Sentence",
    "utterance": "Utterance",
    "u": "Utterance",
    "paragraph": "Paragraph",
    "p": "Paragraph",
    "turn": "Turn",
    "t": "Turn",
    "text": "Text",
    "session": "Session",
}
LEX = [
    ("(", lit("("), False),
    (")", lit(")"), False),
    ("[", lit("["), False),
    ("]", lit("]"), False),
    ("|", lit("|"), False),
    ("&", lit("&"), False),
    ("!", lit("!"), False),
    ("/", lit("/"), False),
    ("{", lit("{"), False),
    ("}", lit("}"), False),
    ("+", lit("+"), False),
    ("*", lit("*"), False),
    ("?", lit("?"), False),
    (",", lit(","), False),
    ("=", lit("="), False),
    ("!=", lit("!="), False),
    (":", lit(":"), False),
    ("within", lit("within"), False),
    ("SCOPE", alt(*[lit(s) for s in SCOPES]), False),
    ("FLAGS", plus(ch(*"iIcCld")), False),
    ("NAME", seq(LETTER, opt(seq(star(ch(("a", "z"), ("A", "Z"), ("0", "9"), "-")), ALNUM))), False),
    ("INT", plus(ch(("0", "9"))), False),
    (
        "STR",
        alt(
            seq(ch("'"), star(alt(ESC, notch("'", "\\"))), ch("'")),
            seq(ch('"'), star(alt(ESC, notch('"', "\\"))), ch('"')),
        ),
        False,
    ),
    ("WS", ch(*WS_CHARS), True),
]
LEXER = Dfa(LEX)

# generated lexer's symbolic names -> model names
ANTLR_NAMES = {
    "L_PAREN": "(",
    "R_PAREN": ")",
    "L_SQUARE_BRACKET": "[",
    "R_SQUARE_BRACKET": "]",
    "OR": "|",
    "AND": "&",
    "NOT": "!",
    "FWD_SLASH": "/",
    "L_CURLY_BRACKET": "{",
    "R_CURLY_BRACKET": "}",
    "Q_ONE_OR_MORE": "+",
    "Q_ZERO_OR_MORE": "*",
    "Q_ZERO_OR_ONE": "?",
    "Q_COMMA": ",",
    "OPERATOR_EQ": "=",
    "OPERATOR_NE": "!=",
    "COLON": ":",
    "WITHIN": "within",
    "SIMPLE_WITHIN_SCOPE": "SCOPE",
    "REGEXP_FLAGS": "FLAGS",
    "IDENTIFIER": "NAME",
    "INTEGER": "INT",
    "REGEXP": "STR",
    "Space": "WS",
}

# ---------------------------------------------------------------- words
TOKENS = ["STR", "[", "]", "(", ")", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":"] + [
    "within",
    "SCOPE",
    "FLAGS",
    "NAME",
    "INT",
]
CANON = {"STR": '"a"', "SCOPE": "s", "FLAGS": "i", "NAME": "x", "INT": "1"}


def word(tok, k=0):
    """a concrete word of class tok, distinguishable by position k"""
    if tok == "STR":
        return f'"v{k}"' if k % 2 else f"'v{k}'"
    if tok == "NAME":
        return f"n{k}"
    if tok == "SCOPE":
        return list(SCOPES)[k % len(SCOPES)]
    if tok == "FLAGS":
        return "iIlcCd"[k % 6]
    if tok == "INT":
        return str(k + 1)
    return tok


def text_of(toks, sep=" "):
    return sep.join(word(t, k) for k, t in enumerate(toks))


# ---------------------------------------------------------------- pushdown model
# LL(1) grammar; nonterminals are lower case lists of right-hand sides
GRAMMAR = {
    "q": [["dis", "withinopt"]],
    "withinopt": [["within", "SCOPE"], []],
    "dis": [["sq", "dis2"]],
    "dis2": [["|", "sq", "dis2"], []],
    "sq": [["el", "sq2"]],
    "sq2": [["el", "sq2"], []],
    "el": [["pat", "rep"], ["[", "exopt", "]", "rep"], ["(", "dis", ")", "rep"]],
    "pat": [["STR", "flagopt"]],
    "flagopt": [["/", "FLAGS"], []],
    "rep": [["+"], ["*"], ["?"], ["{", "range", "}"], []],
    "range": [["INT", "range2"], [",", "INT"]],
    "range2": [[",", "intopt"], []],
    "intopt": [["INT"], []],
    "exopt": [["ex"], []],
    "ex": [["and", "or2"]],
    "or2": [["|", "and", "or2"], []],
    "and": [["un", "and2"]],
    "and2": [["&", "un", "and2"], []],
    "un": [["!", "un"], ["(", "ex", ")"], ["cond"]],
    "cond": [["nm", "cond2"]],
    "cond2": [[":", "nm", "op"], ["op"]],
    "op": [["=", "pat"], ["!=", "pat"]],
    "nm": [["NAME"], ["within"], ["SCOPE"], ["FLAGS"]],
}
NONTERM = {k for k in GRAMMAR if k != "within"}


class Pda:
    """State: tuple of symbols still to be matched (top first). Deterministic."""

    def __init__(self, grammar=GRAMMAR, start="q"):
        self.g = grammar
        self.start = (start,)
        self.nullable = set()
        ch_ = True
        while ch_:
            ch_ = False
            for n, rhs in grammar.items():
                if n not in self.nullable and any(all(s in self.nullable for s in r) for r in rhs):
                    self.nullable.add(n)
                    ch_ = True
        self.first = {n: set() for n in grammar}
        ch_ = True
        while ch_:
            ch_ = False
            for n, rhs in grammar.items():
                for r in rhs:
                    f = self.first_of(r)
                    if not f <= self.first[n]:
                        self.first[n] |= f
                        ch_ = True
        self._min = None
        self._cache = {}

    def isn(self, s):
        return s in NONTERM

    def first_of(self, r):
        out = set()
        for s in r:
            if not self.isn(s):
                out.add(s)
                return out
            out |= self.first[s]
            if s not in self.nullable:
                return out
        return out

    def step(self, state, tok):
        key = (state, tok)
        if key in self._cache:
            return self._cache[key]
        st = state
        res = None
        while st:
            s, rest = st[0], st[1:]
            if not self.isn(s):
                res = rest if s == tok else None
                break
            for r in self.g[s]:
                if tok in self.first_of(r):
                    st = tuple(r) + rest
                    break
            else:
                if s in self.nullable:
                    st = rest
                    continue
                res = None
                break
        self._cache[key] = res
        return res

    def canon(self, state):
        return state

    def accepts(self, state):
        return all(self.isn(s) and s in self.nullable for s in state)

    def run(self, toks):
        """index of the first word that cannot be continued with, or (len, accepted)"""
        st = self.start
        for i, t in enumerate(toks):
            st = self.step(st, t)
            if st is None:
                return i, False
        return len(toks), self.accepts(st)

    def viable(self, state):
        return [t for t in TOKENS if self.step(state, t) is not None]

    MINW = {
        "q": ["STR"],
        "dis": ["STR"],
        "sq": ["STR"],
        "el": ["STR"],
        "pat": ["STR"],
        "range": ["INT"],
        "ex": ["NAME", "=", "STR"],
        "and": ["NAME", "=", "STR"],
        "un": ["NAME", "=", "STR"],
        "cond": ["NAME", "=", "STR"],
        "cond2": ["=", "STR"],
        "op": ["=", "STR"],
        "nm": ["NAME"],
    }

    def completion(self, state):
        """shortest continuation to an accepted sequence"""
        out = []
        for s in state:
            if not self.isn(s):
                out.append(s)
            elif s not in self.nullable:
                out += self.MINW[s]
        return out

    def depth(self, state):
        return sum(1 for s in state if s in (")", "]"))


PDA = Pda()


def prefixes(maxlen, alphabet=TOKENS, pda=PDA, maxdepth=99):
    """all viable prefixes up to maxlen words: yields (tuple of words, state)"""
    level = [((), pda.start)]
    yield level[0]
    for _ in range(maxlen):
        nxt = []
        for p, st in level:
            for t in alphabet:
                s2 = pda.step(st, t)
                if s2 is not None and pda.depth(s2) <= maxdepth:
                    nxt.append((p + (t,), s2))
        yield from nxt
        level = nxt


def reach(maxdepth, pda=PDA, alphabet=TOKENS):
    """breadth-first search of the states with nesting <= maxdepth:
    -> {state: shortest access sequence}, number of transitions"""
    acc = {pda.start: ()}
    todo = [pda.start]
    ntr = 0
    for st in todo:
        for t in alphabet:
            s2 = pda.step(st, t)
            if s2 is None:
                continue
            ntr += 1
            if pda.depth(s2) > maxdepth or s2 in acc:
                continue
            acc[s2] = acc[st] + (t,)
            todo.append(s2)
    return acc, ntr


# ---------------------------------------------------------------- reference trees
N = namedtuple("N", "kind attrs children span")
# kinds: segment(min,max) group(min,max) sequence disjunction within scope(name)
#        cond(qualifier, name, op, pattern, flags) wildcard exgroup not and or


class Reject(Exception):
    def __init__(self, why, pos=None, detail=None):
        super().__init__(why)
        self.why, self.pos, self.detail = why, pos, detail


class Cfg(namedtuple("Cfg", "name op norm")):
    pass


DEFAULT = Cfg("text", "Eq", "NFC")
SIMPLE_ESC = {"\\": "\\", '"': '"', "'": "'", "n": "\n", "t": "\t"}
OPS_ESC = ".^$*+?(){}[]|"
FLAG = {"i": "ci", "c": "ci", "I": "cs", "C": "cs", "l": "lit", "d": "dia"}


def decode(raw):
    """decoded text of a quoted string (with its quotes)"""
    body = raw[1:-1]

    def rep(m):
        s = m.group(1)
        if s in SIMPLE_ESC:
            return SIMPLE_ESC[s]
        if s[0] in "xuU":
            cp = int(s[1:], 16)
            if cp > 0x10FFFF:
                raise Reject("static", detail="codepoint %X" % cp)
            return chr(cp)
        assert s in OPS_ESC, s
        return "\\" + s

    return re.sub(r"\\(x..|u....|U........|.)", rep, body, flags=re.S)


class RefParser:
    def __init__(self, text, cfg=DEFAULT):
        self.text, self.cfg = text, cfg
        toks, err = LEXER.scan(text)
        if err is not None:
            raise Reject("lexical", err)
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def eat(self, *kinds):
        if self.peek() not in kinds:
            raise Reject("syntax", self.t[self.i][1] if self.i < len(self.t) else len(self.text))
        k, a, b = self.t[self.i]
        self.i += 1
        return self.text[a:b]

    def mark(self):
        return self.t[self.i][1] if self.i < len(self.t) else len(self.text)

    def end(self):
        return self.t[self.i - 1][2]

    def query(self):
        a = self.mark()
        q = self.dis()
        if self.peek() == "within":
            self.eat("within")
            b = self.mark()
            sc = N("scope", (SCOPES[self.eat("SCOPE")],), (), (b, self.end()))
            q = N("within", (), (q, sc), (a, self.end()))
        if self.peek() is not None:
            raise Reject("syntax", self.mark())
        return q

    def dis(self):
        return self.nary("disjunction", "|", self.sq)

    def nary(self, kind, op, sub):
        a = self.mark()
        xs = [sub()]
        while self.peek() == op:
            self.eat(op)
            xs.append(sub())
        return xs[0] if len(xs) == 1 else N(kind, (), tuple(xs), (a, self.end()))

    def sq(self):
        a = self.mark()
        xs = [self.el()]
        while self.peek() in ("STR", "[", "("):
            xs.append(self.el())
        return xs[0] if len(xs) == 1 else N("sequence", (), tuple(xs), (a, self.end()))

    def el(self):
        a = self.mark()
        if self.peek() == "(":
            self.eat("(")
            c = self.dis()
            self.eat(")")
            kind = "group"
        elif self.peek() == "[":
            self.eat("[")
            kind = "segment"
            if self.peek() == "]":
                self.eat("]")
                c = N("wildcard", (), (), (a, self.end()))
            else:
                c = self.ex()
                self.eat("]")
        else:
            kind = "segment"
            pat, fl = self.pat()
            c = N("cond", (None, self.cfg.name, self.cfg.op, pat, fl), (), (a, self.end()))
        lo, hi = self.rep()
        return N(kind, (lo, hi), (c,), (a, self.end()))

    def pat(self):
        p = decode(self.eat("STR"))
        if self.cfg.norm:
            p = unicodedata.normalize(self.cfg.norm, p)
        fl = frozenset()
        if self.peek() == "/":
            self.eat("/")
            fl = frozenset(FLAG[c] for c in self.eat("FLAGS"))
            if {"ci", "cs"} <= fl or ("lit" in fl and len(fl) > 1):
                raise Reject("static", detail="flags")
        return p, tuple(sorted(fl))

    def rep(self):
        k = self.peek()
        if k in ("+", "*", "?"):
            return {"+": (1, -1), "*": (0, -1), "?": (0, 1)}[self.eat(k)]
        if k != "{":
            return 1, 1
        self.eat("{")
        if self.peek() == ",":
            self.eat(",")
            lo, hi = 0, int(self.eat("INT"))
        else:
            lo = hi = int(self.eat("INT"))
            if self.peek() == ",":
                self.eat(",")
                hi = int(self.eat("INT")) if self.peek() == "INT" else -1
        self.eat("}")
        if hi != -1 and lo > hi:
            raise Reject("static", detail="range")
        return lo, hi

    def ex(self):
        return self.nary("or", "|", lambda: self.nary("and", "&", self.un))

    def un(self):
        a = self.mark()
        if self.peek() == "!":
            self.eat("!")
            return N("not", (), (self.un(),), (a, self.end()))
        if self.peek() == "(":
            self.eat("(")
            c = self.ex()
            self.eat(")")
            return N("exgroup", (), (c,), (a, self.end()))
        q, n = None, self.eat("NAME", "within", "SCOPE", "FLAGS")
        if self.peek() == ":":
            self.eat(":")
            q, n = n, self.eat("NAME", "within", "SCOPE", "FLAGS")
        op = "Eq" if self.eat("=", "!=") == "=" else "Ne"
        pat, fl = self.pat()
        return N("cond", (q, n, op, pat, fl), (), (a, self.end()))


class _Static(Exception):
    pass


def parse(text, cfg=DEFAULT):
    """reference tree; raises Reject. Syntactic reasons win over static ones."""
    try:
        return RefParser(text, cfg).query()
    except Reject as r:
        if r.why != "static":
            raise
        toks, _ = LEXER.scan(text)
        n, ok = PDA.run([t[0] for t in toks])
        if not ok:
            pos = toks[n][1] if n < len(toks) else len(text)
            raise Reject("syntax", pos) from None
        raise


def status(text, cfg=DEFAULT):
    """('ok', tree) | ('lexical'|'syntax', position) | ('static', detail); a lexical error counts as the
    first error only if the words before it are a viable prefix"""
    toks, err = LEXER.scan(text)
    n, ok = PDA.run([t[0] for t in toks])
    if err is not None:
        return ("lexical", err) if n == len(toks) else ("syntax", toks[n][1])
    if not ok:
        return ("syntax", toks[n][1] if n < len(toks) else len(text))
    try:
        return ("ok", RefParser(text, cfg).query())
    except Reject as r:
        assert r.why == "static", (text, r.why)
        return ("static", r.detail)


def walk(n):
    yield n
    for c in n.children:
        yield from walk(c)


def strip_spans(n):
    return N(n.kind, n.attrs, tuple(strip_spans(c) for c in n.children), None)
