"""Shared finite spaces: sentences, base queries, layouts, size sweeps and constants found in the code.

Constants found in the source of the code under test only *add* items (sizes n-1, n, n+1; strings as names
and patterns; characters), so that thresholds and special cases in the code are among the explored inputs.
No verdict depends on them.
"""
import ast
import functools
import itertools
import os

from mc import model as M
from mc.boot import SRC
from mc.model import LEXER, Pda


# ---------------------------------------------------------------- constants found in the code
class Mined:
    def __init__(self):
        self.ints, self.strs = set(), set()
        base = os.path.join(SRC, "fcsql")
        for f in sorted(os.listdir(base)):
            # generated files hold nothing but rule numbers and serialized automata
            if f.endswith(".py") and not f.startswith(("FCSLexer", "FCSParser")):
                try:
                    self.scan(ast.parse(open(os.path.join(base, f), encoding="utf-8").read()))
                except (SyntaxError, OSError, ValueError):
                    pass

    def scan(self, tree):
        todo = [tree]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 100:
                continue  # serialized automata
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue  # docstrings
            if isinstance(n, ast.Constant):
                if type(n.value) is int and n.value >= 0:
                    self.ints.add(n.value)
                elif type(n.value) is str and len(n.value) <= 60:
                    self.strs.add(n.value)
            todo.extend(ast.iter_child_nodes(n))

    def sizes(self, limit):
        return sorted({m for n in self.ints for m in (n - 1, n, n + 1) if 0 <= m <= limit})

    def codepoints(self):
        cps = {ord(c) for s in self.strs for c in s}
        cps |= {m for n in self.ints for m in (n - 1, n, n + 1) if 0 <= m <= 0x10FFFF}
        return sorted(cps)

    def names(self):
        out = set()
        for s in self.strs:
            for w in (s, s + "a", "a" + s, s.lower(), s.upper(), s.capitalize()):
                toks, err = LEXER.scan(w)
                if err is None and len(toks) == 1 and toks[0][0] in ("NAME", "within", "SCOPE", "FLAGS"):
                    if toks[0][1:] == (0, len(w)):
                        out.add(w)
        return sorted(out)


@functools.lru_cache(None)
def mined():
    return Mined()


# ---------------------------------------------------------------- sentences over macro words
EXPR_G = {
    "ex": [["and", "or2"]],
    "or2": [["|", "and", "or2"], []],
    "and": [["un", "and2"]],
    "and2": [["&", "un", "and2"], []],
    "un": [["!", "un"], ["(", "ex", ")"], ["C"]],
}
QUERY_G = {
    "q": [["dis", "withinopt"]],
    "withinopt": [["W"], []],
    "dis": [["sq", "dis2"]],
    "dis2": [["|", "sq", "dis2"], []],
    "sq": [["el", "sq2"]],
    "sq2": [["el", "sq2"], []],
    "el": [["P", "rep"], ["B", "rep"], ["(", "dis", ")", "rep"]],
    "rep": [["Q"], []],
}


class MacroPda(Pda):
    def isn(self, s):
        return s in self.g


def _sent(grammar, start, alphabet, n, minn=1):
    pda = MacroPda(grammar, start)
    level = [((), pda.start)]
    for k in range(1, n + 1):
        nxt = []
        for p, st in level:
            for t in alphabet:
                s2 = pda.step(st, t)
                if s2 is not None and M_minlen(pda, s2) <= n - k:
                    nxt.append((p + (t,), s2))
                    if k >= minn and pda.accepts(s2):
                        yield p + (t,)
        level = nxt


def M_minlen(pda, st):
    ml = {"ex": 1, "and": 1, "un": 1, "q": 1, "dis": 1, "sq": 1, "el": 1}
    return sum((ml.get(s, 0) if s in pda.g else 1) for s in st)


@functools.lru_cache(None)
def expr_sentences(n, minn=1, maxnot=99):
    """Boolean expressions with minn..n words over {condition, ( ) | & !}"""
    out = []
    for s in _sent(EXPR_G, "ex", ["C", "(", ")", "|", "&", "!"], n, minn):
        if s.count("!") <= maxnot:
            out.append(s)
    return out


@functools.lru_cache(None)
def query_sentences(n, minn=1, alphabet=("P", "B", "(", ")", "|", "Q", "W")):
    """queries with minn..n words over {pattern, bracketed token, ( ) |, repetition, within clause}"""
    return list(_sent(QUERY_G, "q", list(alphabet), n, minn))


REPS = ["{2,3}", "*", "{2}", "+", "{4,}", "?", "{,5}", "{0}"]
SCOPEW = list(M.SCOPES)


def expr_words(s):
    """word list of the expression inside brackets, every condition distinct"""
    out = ["["]
    for k, t in enumerate(s):
        if t == "C":
            q = [f"q{k}", ":"] if k % 3 == 1 else []
            out += q + [f"a{k}", "!=" if k % 4 == 2 else "=", f'"v{k}"']
            if k % 5 == 3:
                out += ["/", "id"]
        else:
            out.append(t)
    return out + ["]"]


def query_words(s):
    out = []
    for k, t in enumerate(s):
        if t == "P":
            out.append(f'"p{k}"')
            if k % 4 == 3:
                out += ["/", "l"]
        elif t == "B":
            if k % 3 == 2:
                out += ["[", "]"]
            else:
                out += ["[", f"b{k}", "=", f"'w{k}'", "]"]
        elif t == "Q":
            out += M_words(REPS[k % len(REPS)])
        elif t == "W":
            out += ["within", SCOPEW[k % len(SCOPEW)]]
        else:
            out.append(t)
    return out


def same_words(s):
    """like expr_words/query_words, but every element equals every other of its kind"""
    m = {"C": ["x", "=", '"v"'], "P": ['"v"'], "B": ["[", "x", "=", '"v"', "]"], "Q": ["{", "2", ",", "3", "}"], "W": ["within", "s"]}
    out = [w for t in s for w in m.get(t, [t])]
    return ["["] + out + ["]"] if "C" in s else out


def M_words(text):
    toks, err = LEXER.scan(text)
    assert err is None
    return [text[a:b] for _, a, b in toks]


# ---------------------------------------------------------------- layouts
def fuses(a, b):
    """would writing b directly after a change the words?"""
    toks, err = LEXER.scan(a + b)
    return err is not None or [(x, y) for _, x, y in toks] != [(0, len(a)), (len(a), len(a) + len(b))]


def needs_gap(words):
    """for each inner gap: is a separator needed (given minimal layout)?"""
    return [fuses(a, b) for a, b in zip(words, words[1:])]


def layout(words, style):
    """spaced / compact / wild"""
    if style == "spaced":
        return " ".join(words)
    if style == "compact":
        out = words[0] if words else ""
        for a, b in zip(words, words[1:]):
            out += (" " if fuses(a, b) else "") + b
        return out
    if style == "wild":
        gaps = ["  ", "\n", " \t ", "\u2003", "\r\n\n", " \u00a0", "\x0b", "\u3000\u3000"]
        out = "\n  "
        for k, w in enumerate(words):
            out += w + gaps[k % len(gaps)]
        return out
    if style == "astral":
        out = ""
        for k, w in enumerate(words):
            if w[:1] in "\"'" and len(w) > 1:
                w = w[0] + "\U0001f600e\u0301" + w[1:-1] + "\U00010348" + w[-1]
            out += w + (" " if k % 2 or (k + 1 < len(words) and fuses(w, words[k + 1])) else "")
        return out
    raise ValueError(style)


# ---------------------------------------------------------------- base queries: one per construct
BASE = [
    '"a"',
    "'a'",
    '"a" "b"',
    '"a" | "b"',
    '"a" "b" | "c"',
    '("a")',
    '("a" | "b") "c"',
    '("a" "b"){2,3} | []',
    "[]",
    "[]*",
    '"a"/i',
    '"a"/ld' + "",
    '"a"+ "b"? "c"*',
    '"a"{3}',
    '"a"{3,}',
    '"a"{,3}',
    '"a"{3,4} within s',
    '[pos = "NOUN"]',
    '[pos != "NOUN"/c]',
    '[x:pos = "NOUN"]',
    '[a = "1" & b = "2"]',
    '[a = "1" | b = "2"]',
    '[!a = "1"]',
    '[!(a = "1" | b = "2") & c = "3"]',
    '[(a = "1")]{2}',
    '[within = "a"] within text',
    '[s:i = "a"/id]',
    '(("a" | [b != "x"]?)+ "c")* within paragraph',
    '"a\\"\\n\\u00e9\\."',
    '"\U0001f600" [x-y-z = "\u00fc"]',
    '"dogs" []{3,0} "cats"',
    '"a"/iI',
    '[a = "\\U00110000"]',
    "",
    " ",
    "[",
    "]",
    '"a',
    '"a\\q"',
    "[a]",
    '[a = "b"',
    '("a"',
    '"a")',
    '"a" |',
    '| "a"',
    '"a"{}',
    '"a"{,}',
    '"a" within',
    '"a" within x',
    '"a" % "b"',
    '[a == "b"]',
    '[a = "b" c = "d"]',
    '[-x = "a"]',
    '[x- = "a"]',
    '[1 = "a"]',
    '"a"/x',
    '"a"\n\n %',
    '"a" \u00df',
    '[a = "b"] [c = ]',
]
BASE = [b for b in BASE if b != '"a"/ld'] + ['"a"/ld', '"a"/l', '"a"/dI']

# ---------------------------------------------------------------- size sweeps
SIZES_FAST = list(range(1, 41)) + [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257]


def sizes(limit, fast=False):
    """every size up to 40 (or limit) plus powers of two and sizes suggested by constants in the code"""
    s = set(SIZES_FAST) | set(mined().sizes(limit))
    return sorted(x for x in s if 1 <= x <= limit)


def big_sizes(limit):
    """around every power of two and some round numbers, up to limit; sizes suggested by the code included"""
    s = {m for k in range(8, 21) for m in (2**k - 1, 2**k, 2**k + 1)} | {m for n in (500, 1000, 2000, 5000, 10000, 20000, 50000, 100000) for m in (n, n + 1)} | set(mined().sizes(limit))
    return sorted(x for x in s if 200 <= x <= limit)


DIMENSIONS = {
    # name: (maker(n) -> query text, largest n explored)
    "sequence": (lambda n: " ".join(f'"w{i}"' for i in range(n)), 300),
    "alternatives": (lambda n: " | ".join(f'"w{i}"' for i in range(n)), 300),
    "segments": (lambda n: " ".join(f'[a{i}="w{i}"]' for i in range(n)), 60),
    "wildcards": (lambda n: "[]" * n, 200),
    "or": (lambda n: "[" + "|".join(f'a{i}="w{i}"' for i in range(n)) + "]", 200),
    "and": (lambda n: "[" + "&".join(f'a{i}="w{i}"' for i in range(n)) + "]", 200),
    "and-in-or": (lambda n: "[" + "|".join(f'a{i}="w{i}"&b{i}="u{i}"' for i in range(n)) + "]", 60),
    "and-not": (lambda n: "[" + "&".join(f'!a{i}="w{i}"' for i in range(n)) + "]", 100),
    "negations": (lambda n: "[" + "!" * n + 'a="b"]', 60),
    "or-not": (lambda n: "[" + "|".join(f'!a{i}="w{i}"' for i in range(n)) + "]", 100),
    "expression-groups": (lambda n: "[" + "(" * n + 'a="b"' + ")" * n + "]", 60),
    "not-groups": (lambda n: "[" + "!(" * n + 'a="b"' + ")" * n + "]", 40),
    "query-groups": (lambda n: "(" * n + '"a"' + ")" * n, 60),
    "repeated-groups": (lambda n: "(" * n + '"a"' + ")+" * n, 40),
    "alternative-groups": (lambda n: "(" * n + '"a"' + '|"b")' * n, 20),
    "sequence-of-groups": (lambda n: " ".join(f'("w{i}" | "u{i}")' for i in range(n)), 30),
    "pattern-length": (lambda n: '"' + ("abcdefghij" * (n // 10 + 1))[:n] + '"', 5000),
    "pattern-tail": (lambda n: '"' + ("abcdefghij" * (n // 10 + 1))[:n] + '\\\\n\\x41"', 5000),
    "escapes": (lambda n: '"' + "\\\\" * n + '"', 2000),
    "pattern-blanks": (lambda n: '"a' + " " * n + 'b"', 2000),
    "pattern-astral": (lambda n: '"' + "\U0001f600\u00fc" * n + '"', 2000),
    "pattern-marks": (lambda n: '"a' + "\u0301\u0323" * n + '"', 300),
    "pattern-same": (lambda n: "'" + '"' * n + "'", 300),
    "escape-letters": (lambda n: '"' + "\\n\\." * n + '"', 2000),
    "escape-codes": (lambda n: '"' + "\\x41\\u00e9\\U0001f600" * n + '"', 300),
    "name-length": (lambda n: "[" + ("abcdefghij" * (n // 10 + 1))[:n] + '="x"]', 2000),
    "qualifier-length": (lambda n: "[" + ("qbcdefghij" * (n // 10 + 1))[:n] + ':a="x"]', 2000),
    "flags-length": (lambda n: '"a"/' + ("id" * n)[:n], 300),
    "leading-space": (lambda n: " " * n + '"a"', 5000),
    "trailing-space": (lambda n: '"a"' + " " * n, 5000),
    "inner-space": (lambda n: '"a"' + " " * n + '"b"', 5000),
    "lines": (lambda n: '"a"' + "\n" * n + '"b"', 5000),
    "repetition-number": (lambda n: '"a"{%d}' % n, 5000),
    "repetition-digits": (lambda n: '"a"{%s}' % ("9" * n), 300),
}


def dimension_items(dims=None, cap=None):
    out = []
    for d in dims or DIMENSIONS:
        lim = DIMENSIONS[d][1]
        for n in sizes(min(lim, cap or lim)):
            out.append((d, n))
    return out


COUNTS = ("sequence", "alternatives", "segments", "wildcards", "or", "and", "and-in-or", "and-not", "or-not", "sequence-of-groups")
PATTERNS = ("pattern-length", "pattern-tail", "escapes", "pattern-blanks", "pattern-astral", "pattern-marks", "pattern-same", "escape-letters", "escape-codes")
LENGTHS = ("pattern-length", "pattern-tail", "pattern-blanks", "escapes", "name-length", "qualifier-length", "flags-length", "leading-space", "trailing-space", "inner-space", "lines")


def big_items(counts, lengths, dims=COUNTS + LENGTHS):
    """far beyond the sizes of dimension_items: around every power of two and round numbers"""
    return [(d, n) for d in dims for n in big_sizes(counts if d in COUNTS else lengths)]


def dimension_query(item):
    return DIMENSIONS[item[0]][0](item[1])


# ---------------------------------------------------------------- fragments, composed
Q_FRAGMENTS = ["@", "[]", "(@)", "@ @", "(@) (@)", "(@ @)", "(@ | @)", "@+", "(@){2}", "((@))", "[] @", "(@) @", "@ (@ | @)"]
E_FRAGMENTS = ["@", "!@", "(@)", "!(@)", "(@ & @)", "(@ | @)", "@ & @", "@ | @", "((@))", "!!@", "(!@)", "!(@ | !@)", "!!(@)"]


def fill(shape, mk):
    """numbers every @"""
    parts = shape.split("@")
    return "".join(p + (mk(i) if i + 1 < len(parts) else "") for i, p in enumerate(parts))


def composed_queries(k):
    """every k-tuple of query fragments, in every way of joining them"""
    out = []
    for fs in itertools.product(Q_FRAGMENTS, repeat=k):
        for js in itertools.product((" ", " | "), repeat=k - 1):
            s = fs[0] + "".join(j + f for j, f in zip(js, fs[1:]))
            out.append(s)
            if k < 3:
                out += ["(" + s + ")", "(" + s + ")+ @", "@ | (" + s + ") within text", "((" + s + ") | @)?"]
    return list(dict.fromkeys(fill(s, lambda i: f'"w{i}"') for s in out))


def composed_expressions(k):
    out = []
    for fs in itertools.product(E_FRAGMENTS, repeat=k):
        for js in itertools.product((" & ", " | "), repeat=k - 1):
            s = fs[0] + "".join(j + f for j, f in zip(js, fs[1:]))
            out.append("[" + s + "]")
            if k < 3:
                out += ["[!(" + s + ")]", "[(" + s + ") & @]", "[@ | (" + s + ")]"]
    return list(dict.fromkeys(fill(s, lambda i: f'a{i} = "w{i}"') for s in out))


# ---------------------------------------------------------------- corpora of accepted queries
@functools.lru_cache(None)
def small_queries(nq, ne):
    """every query shape up to nq words and every expression shape up to ne words, as word lists"""
    out = [tuple(query_words(s)) for s in query_sentences(nq)]
    out += [tuple(expr_words(s)) for s in expr_sentences(ne)]
    # expressions inside every kind of query position
    for s in expr_sentences(min(ne, 5)):
        w = expr_words(s)
        out.append(tuple(["("] + w + ["|", '"z"', ")", "{", "2", ",", "}"] + ["within", "t"]))
        out.append(tuple(['"y"', "/", "c"] + w + ["?", "|"] + w))
    # equal elements side by side
    out += [tuple(same_words(s)) for s in query_sentences(nq) + expr_sentences(ne)]
    return list(dict.fromkeys(out))


VALID = [b for b in BASE if M.status(b)[0] == "ok"]


# ---------------------------------------------------------------- features that occur together
# a query is put together from one value per feature; every choice that differs in up to t features from one of
# the two base queries (everything plain, everything rich) is enumerated
FEATURES = (
    ("lead", ("", "\n \t", "\u3000\r\n")),
    ("condition", ("bare", "single", "bracket")),
    ("pattern", ("ab", "e\u0301 x", "\\x41\\.\\n", "\U0001f600*", "NOUN", "")),
    ("flags", ("", "/i", " / Id", "/l")),
    ("name", ("text", "word", "pos", "x-a", "foo", "within")),
    ("qualifier", ("", "q:", "s : ")),
    ("operator", ("=", " != ")),
    ("boolean", ("@", "@ & b=\"1\"", "b='1' | @", "!@", "(@)", "! ( b=\"1\" & !@ | c!=\"2\" )", "c=\"2\" | @ & !b=\"1\"")),
    ("suffix", ("", "+", "{2,3}", " { , 7 }", "{10,}")),
    ("wrap", ("@", "(@)", "(@)*", "@ | \"y\"", "(\"y\" | @ []){2}", "\"y\" (@ | ((@)))")),
    ("tail", ("", " \"z\"", " []{2}\n", " ( [d=\"e\"/c] )?")),
    ("within", ("", " within s", "\nwithin\u2003utterance ")),
)
RICH_POINT = (1, 2, 2, 2, 2, 1, 1, 5, 2, 4, 3, 2)


def feature_text(point):
    v = {n: vals[k] for (n, vals), k in zip(FEATURES, point)}
    q = "'" if v["condition"] == "single" else '"'
    pat = q + v["pattern"] + q + v["flags"]
    if v["condition"] == "bracket":
        pat = "[" + v["boolean"].replace("@", v["qualifier"] + v["name"] + v["operator"] + pat) + "]"
    return v["lead"] + v["wrap"].replace("@", pat + v["suffix"]) + v["tail"] + v["within"]


@functools.lru_cache(None)
def features(t):
    out = {}
    dims = [range(len(vals)) for _, vals in FEATURES]
    for base in ((0,) * len(dims), (0, 2) + (0,) * (len(dims) - 2), RICH_POINT):
        for ks in itertools.combinations(range(len(dims)), t):
            for vs in itertools.product(*(dims[k] for k in ks)):
                p = list(base)
                for k, v in zip(ks, vs):
                    p[k] = v
                out.setdefault(feature_text(p))
    return [q for q in out if M.status(q)[0] == "ok"]


# ways to set up a parser: default layer, operator, form, locations
CONFIGS = [
    (name, op, form, loc)
    for name, op, form in (("text", "Eq", "NFC"), ("lemma", "Ne", None), ("x-a", "Eq", "NFKD"), ("pos", "Ne", "NFD"), ("foo", "Eq", None), ("word", "Ne", "NFKC"))
    for loc in (True, False)
]


@functools.lru_cache(None)
def feature_mistakes(t):
    """each of these queries with a word left out, doubled, or a wrong piece in between"""
    out = {}
    for q in features(t):
        toks, _ = LEXER.scan(q)
        for _, a, b in toks:
            out.setdefault(q[:a] + q[b:])
            out.setdefault(q[:b] + " " + q[a:b] + q[b:])
            for x in ("]", "%", '"'):
                out.setdefault(q[:a] + " " + x + " " + q[a:])
    return list(out)


# ---------------------------------------------------------------- many mistakes, long conditions
MISTAKES = ('"a"@ %', "@] ", "@)", '@[a="b" ', '@"a"{2,1 ', "@% ] ", '@[foo=%] "a" ', "@\n%", "@'a ", '@"a" | ', '@"\\q" ', '@[!] & ', "@\u00fc\U0001f600 ")


def many_mistakes(ns):
    """one mistake over and over, alone, after a good beginning, before a good end"""
    out = []
    for n in ns:
        for m in MISTAKES:
            head, tail = m.split("@")
            run = head + tail * n if tail else head * n
            out += [run, '"a" [b="c"] ' + run, run + ' "a"']
    return list(dict.fromkeys(out))


def long_conditions(ns, layers=("foo", "word", "x-a", "pos", "text")):
    """conditions whose text is long in one way"""
    out = []
    for n in ns:
        for la in layers:
            for t in ('[%s = "%s"]' % (la, "a" * n), "[%s != '%s'/i]" % (la, "\u00fc\U0001f600 "[n % 3] * n), '[%s%s="a"]' % (la, " " * n), '[%s =\n%s"a"]' % (la, "\n" * n), '[%s="a"/%s]' % (la, "i" * n), '[%s:%s="%s"]' % ("q" * n, la, "\\n" * (n % 7)), '"b" [!(%s="%s" & text="c")]{2}' % (la, "\\x41" * n)):
                out.append(t)
        out.append('[%s="a"]' % ("f" * n))
    return out
