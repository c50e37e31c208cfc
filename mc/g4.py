"""Reader for the grammar notation used in the shipped .g4 files, and automata of what they define and of
what the packaged recognizers hold (deserialized ATN). Nothing here knows the language."""
import os
import re

from antlr4.atn.ATNState import RuleStopState
from antlr4.atn.LexerAction import LexerSkipAction
from antlr4.atn.Transition import Transition

from mc.automata import MAXCP, Dfa, compl, norm
from mc.boot import SRC

TOK = re.compile(
    r"""(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<lit>'(?:\\.|[^'\\])+')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<opts>options\s*\{[^}]*\})"""
    r"""|(?P<arrow>->)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<range>\.\.)|(?P<p>[:;|()*+?~.,=])""",
    re.S,
)
ESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f"}


class GrammarError(Exception):
    pass


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise GrammarError(f"cannot read grammar at {text[i:i+40]!r}")
        i = m.end()
        if m.lastgroup not in ("ws", "opts"):
            out.append((m.lastgroup, m.group()))
    return out


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
        elif s[i + 1] == "u" and s[i + 2] == "{":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3 : j], 16)))
            i = j + 1
        elif s[i + 1] == "u":
            out.append(chr(int(s[i + 2 : i + 6], 16)))
            i += 6
        else:
            out.append(ESC.get(s[i + 1], s[i + 1]))
            i += 2
    return out


def charset(s):
    """contents of [...]"""
    # keep escaped characters apart from range dashes
    raw, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            n = 6 if s[i + 1] == "u" and s[i + 2] != "{" else (s.index("}", i) - i + 1 if s[i + 1] == "u" else 2)
            raw.append((unescape(s[i : i + n])[0], True))
            i += n
        else:
            raw.append((s[i], False))
            i += 1
    iv, k = [], 0
    while k < len(raw):
        if k + 2 < len(raw) and raw[k + 1] == ("-", False):
            iv.append((ord(raw[k][0]), ord(raw[k + 2][0])))
            k += 3
        else:
            iv.append((ord(raw[k][0]),) * 2)
            k += 1
    return norm(iv)


class Reader:
    """rules: ordered [(name, is_fragment, body, commands)]; body: ('alt',..) ('seq',..) ('star',x) ('plus',x)
    ('opt',x) ('ref',name) ('lit',text) ('chars',intervals) ('not',x) ('any',)"""

    def __init__(self, path):
        self.t = tokens(open(path, encoding="utf-8").read())
        self.i = 0
        self.rules = []
        while self.peek() != ";":
            self.next()
        self.next()
        while self.i < len(self.t):
            self.rule()

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def expect(self, x):
        if self.peek() != x:
            raise GrammarError(f"expected {x!r}, found {self.peek()!r}")
        self.next()

    def rule(self):
        frag = False
        if self.peek() == "fragment":
            self.next()
            frag = True
        if self.kind() != "id":
            raise GrammarError(f"expected a rule, found {self.peek()!r}")
        name = self.next()
        self.expect(":")
        self.commands = []
        body = self.alt()
        self.expect(";")
        self.rules.append((name, frag, body, self.commands))

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.next()
            xs.append(self.seq())
        return ("alt", xs) if len(xs) > 1 else xs[0]

    def seq(self):
        xs = []
        while self.peek() not in ("|", ";", ")", None):
            if self.peek() == "->":
                self.next()
                self.commands.append(self.next())
                continue
            xs.append(self.suffixed())
        return ("seq", xs)

    def suffixed(self):
        x = self.atom()
        while self.peek() in ("*", "+", "?"):
            x = ({"*": "star", "+": "plus", "?": "opt"}[self.next()], x)
            if self.peek() == "?":
                raise GrammarError("non-greedy loops are not supported")
        return x

    def atom(self):
        k = self.kind()
        if self.peek() == "(":
            self.next()
            x = self.alt()
            self.expect(")")
            return x
        if self.peek() == "~":
            self.next()
            return ("not", self.atom())
        if self.peek() == ".":
            self.next()
            return ("chars", ((0, MAXCP),))
        v = self.next()
        if k == "lit":
            s = unescape(v[1:-1])
            if self.peek() == "..":
                self.next()
                return ("chars", ((ord(s[0]), ord(unescape(self.next()[1:-1])[0])),))
            return ("lit", "".join(s))
        if k == "set":
            return ("chars", charset(v[1:-1]))
        if k == "id":
            return ("ref", v)
        raise GrammarError(f"unexpected {v!r}")


# ---------------------------------------------------------------- lexer grammar
def lexer_rules(path):
    rd = Reader(path)
    by = {n: b for n, _, b, _ in rd.rules}

    def chars(x):
        if x[0] == "chars":
            return x[1]
        if x[0] == "lit" and len(x[1]) == 1:
            return ((ord(x[1]),) * 2,)
        if x[0] == "alt":
            return norm([iv for y in x[1] for iv in chars(y)])
        if x[0] == "seq" and len(x[1]) == 1:
            return chars(x[1][0])
        if x[0] == "ref":
            return chars(by[x[1]])
        raise GrammarError(f"not a character set: {x[0]}")

    def conv(x, seen):
        k = x[0]
        if k == "chars":
            return ("chars", x[1])
        if k == "lit":
            return ("seq", [("chars", ((ord(c),) * 2,)) for c in x[1]])
        if k == "not":
            return ("chars", compl(chars(x[1])))
        if k in ("alt", "seq"):
            return (k, [conv(y, seen) for y in x[1]])
        if k == "star":
            return ("star", conv(x[1], seen))
        if k == "plus":
            y = conv(x[1], seen)
            return ("seq", [y, ("star", y)])
        if k == "opt":
            return ("alt", [conv(x[1], seen), ("seq", [])])
        if k == "ref":
            if x[1] in seen:
                raise GrammarError("recursive lexer rule " + x[1])
            return conv(by[x[1]], seen | {x[1]})
        raise GrammarError(k)

    out = []
    for n, frag, b, cmds in rd.rules:
        if any(c != "skip" for c in cmds):
            raise GrammarError(f"unsupported commands {cmds}")
        if not frag:
            out.append((n, conv(b, {n}), "skip" in cmds))
    return out


def lexer_dfa(path=None):
    return Dfa(lexer_rules(path or os.path.join(SRC, "fcsql", "FCSLexer.g4")))


class AtnDfa(Dfa):
    """the packaged lexer's automaton, determinized; rule order decides between equally long matches"""

    def __init__(self, lexer):
        atn = lexer.atn
        names = lexer.symbolicNames
        self.rules = []
        for r, start in enumerate(atn.ruleToStartState):
            tt = atn.ruleToTokenType[r]
            self.rules.append([names[tt] if 0 < tt < len(names) else f"<{tt}>", False])
        # configurations: (state, return stack)
        nfa, eps, edges, final = {}, [], [], {}

        def node(cfg):
            if cfg not in nfa:
                nfa[cfg] = len(eps)
                eps.append([])
                edges.append([])
                todo.append(cfg)
            return nfa[cfg]

        todo = []
        start = node((None, (), None))
        while todo:
            cfg = todo.pop()
            st, stack, rule = cfg
            me = nfa[cfg]
            if st is None:
                for t in atn.modeToStartState[0].transitions:
                    r = t.target.ruleIndex
                    eps[me].append(node((t.target.stateNumber, (), r)))
                continue
            s = atn.states[st]
            if isinstance(s, RuleStopState):
                if stack:
                    eps[me].append(node((stack[-1], stack[:-1], rule)))
                else:
                    final[me] = rule
                continue
            for t in s.transitions:
                k = t.serializationType
                if k == Transition.RULE:
                    if len(stack) > 20:
                        raise GrammarError("recursive lexer automaton")
                    eps[me].append(node((t.target.stateNumber, stack + (t.followState.stateNumber,), rule)))
                elif k == Transition.ACTION:
                    if t.actionIndex is not None and t.actionIndex >= 0 and isinstance(atn.lexerActions[t.actionIndex], LexerSkipAction):
                        self.rules[rule][1] = True
                    eps[me].append(node((t.target.stateNumber, stack, rule)))
                elif t.isEpsilon:
                    eps[me].append(node((t.target.stateNumber, stack, rule)))
                else:
                    if k == Transition.WILDCARD:
                        iv = ((0, MAXCP),)
                    else:
                        iv = norm([(max(0, x.start), min(MAXCP, x.stop - 1)) for x in t.label.intervals])
                        if k == Transition.NOT_SET:
                            iv = compl(iv)
                    edges[me].append((iv, node((t.target.stateNumber, stack, rule))))
        self.rules = [tuple(x) for x in self.rules]
        self.determinize(eps, edges, start, final)


# ---------------------------------------------------------------- parser grammar
class Rtn:
    """Recursive transition network: rule -> NFA over tokens and rules. Configuration stacks are tuples of
    (rule-NFA) nodes; a reached set is a frozenset of stacks."""

    def __init__(self):
        self.eps, self.tok, self.call = [], [], []
        self.entry, self.exit = {}, {}

    def new(self):
        self.eps.append([])
        self.tok.append([])
        self.call.append([])
        return len(self.eps) - 1

    def prepare(self, start):
        n = len(self.eps)
        # nodes from which only the end of the rule is reachable by empty moves: no need to return there
        self.ends = [False] * n
        exits = set(self.exit.values())
        for x in range(n):
            seen, todo, ok = {x}, [x], True
            while todo and ok:
                y = todo.pop()
                if self.tok[y] or self.call[y]:
                    ok = False
                for z in self.eps[y]:
                    if z not in seen:
                        seen.add(z)
                        todo.append(z)
            self.ends[x] = ok and bool(seen & exits)
        self.exits = exits
        self.start = self.close([(self.entry[start],)])
        self._step = {}

    def close(self, stacks):
        """stable form: only stacks whose top can read a word; () = the query is complete"""
        seen = set(stacks)
        todo = list(stacks)
        out = set()
        while todo:
            st = todo.pop()
            if len(st) > 400:
                raise GrammarError("left recursion")
            nxt = []
            if not st:
                out.add(())
                continue
            top, rest = st[-1], st[:-1]
            if self.tok[top]:
                out.add(st)
            if top in self.exits:
                nxt.append(rest)
            for z in self.eps[top]:
                nxt.append(rest + (z,))
            for rule, follow in self.call[top]:
                base = rest if self.ends[follow] else rest + (follow,)
                nxt.append(base + (self.entry[rule],))
            for s in nxt:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return frozenset(out)

    def step(self, S, t):
        key = (S, t)
        if key not in self._step:
            nxt = [st[:-1] + (z,) for st in S if st for names, z in self.tok[st[-1]] if t in names]
            self._step[key] = self.close(nxt) if nxt else frozenset()
        return self._step[key]


def parser_rtn(path=None):
    rd = Reader(path or os.path.join(SRC, "fcsql", "FCSParser.g4"))
    by = {n for n, *_ in rd.rules}
    r = Rtn()
    for n in by:
        r.entry[n], r.exit[n] = r.new(), r.new()

    def build(x, a, b):
        k = x[0]
        if k == "ref":
            if x[1] in by:
                r.call[a].append((x[1], b))
            else:  # EOF is a word of its own
                r.tok[a].append((frozenset([x[1]]), b))
        elif k == "seq":
            for y in x[1]:
                m = r.new()
                build(y, a, m)
                a = m
            r.eps[a].append(b)
        elif k == "alt":
            for y in x[1]:
                p, q = r.new(), r.new()
                r.eps[a].append(p)
                build(y, p, q)
                r.eps[q].append(b)
        elif k in ("star", "plus", "opt"):
            p, q = r.new(), r.new()
            r.eps[a].append(p)
            build(x[1], p, q)
            r.eps[q].append(b)
            if k != "opt":
                r.eps[q].append(p)
            if k != "plus":
                r.eps[p].append(q)
        else:
            raise GrammarError("in parser rule: " + k)

    for n, _, b, _ in rd.rules:
        build(b, r.entry[n], r.exit[n])
    r.prepare("query")
    return r


def atn_rtn(parser):
    """the packaged parser's automaton"""
    atn, names = parser.atn, parser.symbolicNames
    r = Rtn()
    for _ in atn.states:
        r.new()
    rn = parser.ruleNames
    for i, n in enumerate(rn):
        r.entry[n] = atn.ruleToStartState[i].stateNumber
        r.exit[n] = atn.ruleToStopState[i].stateNumber
    for s in atn.states:
        if s is None or isinstance(s, RuleStopState):
            continue
        for t in s.transitions:
            k = t.serializationType
            if k == Transition.RULE:
                r.call[s.stateNumber].append((rn[t.ruleIndex], t.followState.stateNumber))
            elif t.isEpsilon:
                r.eps[s.stateNumber].append(t.target.stateNumber)
            else:
                every = set(range(1, len(names)))
                got = every if k == Transition.WILDCARD else {v for x in t.label.intervals for v in range(x.start, x.stop)}
                if k == Transition.NOT_SET:
                    got = every - got
                toks = frozenset("EOF" if v == -1 else names[v] for v in got)
                if toks:
                    r.tok[s.stateNumber].append((toks, t.target.stateNumber))
    r.prepare(rn[0])
    return r
