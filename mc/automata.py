"""Small regular-language kit: character-interval regexes -> NFA -> DFA over a computed partition of
the code point space into classes. Used for the reference lexer and for the shipped lexer grammar."""
import bisect

MAXCP = 0x10FFFF


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def compl(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def ch(*cs):
    """character class from characters and (lo, hi) pairs"""
    return ("chars", norm([(ord(c), ord(c)) if isinstance(c, str) else (ord(c[0]), ord(c[1])) for c in cs]))


def notch(*cs):
    return ("chars", compl(ch(*cs)[1]))


def lit(s):
    return ("seq", [ch(c) for c in s])


def seq(*xs):
    return ("seq", list(xs))


def alt(*xs):
    return ("alt", list(xs))


def star(x):
    return ("star", x)


def plus(x):
    return ("seq", [x, ("star", x)])


def opt(x):
    return ("alt", [x, ("seq", [])])


class Dfa:
    """Longest-match scanner automaton of an ordered rule list [(name, regex, skip)]."""

    def __init__(self, rules):
        self.rules = [(n, s) for n, _, s in rules]
        eps, edges = [], []

        def new():
            eps.append([])
            edges.append([])
            return len(eps) - 1

        def build(x, a, b):
            k = x[0]
            if k == "chars":
                edges[a].append((x[1], b))
            elif k == "seq":
                for y in x[1][:-1]:
                    m = new()
                    build(y, a, m)
                    a = m
                if x[1]:
                    build(x[1][-1], a, b)
                else:
                    eps[a].append(b)
            elif k == "alt":
                for y in x[1]:
                    p, q = new(), new()
                    eps[a].append(p)
                    build(y, p, q)
                    eps[q].append(b)
            elif k == "star":
                p, q = new(), new()
                eps[a].append(p)
                eps[p].append(b)
                build(x[1], p, q)
                eps[q].append(p)
            else:
                raise ValueError(k)

        start = new()
        final = {}
        for i, (_, rx, _) in enumerate(rules):
            a, b = new(), new()
            eps[start].append(a)
            build(rx, a, b)
            final[b] = i
        self.determinize(eps, edges, start, final)

    def determinize(self, eps, edges, start, final):
        cuts = {0}
        for es in edges:
            for iv, _ in es:
                for lo, hi in iv:
                    cuts.add(lo)
                    cuts.add(hi + 1)
        self.cuts = sorted(c for c in cuts if c <= MAXCP)
        nclass = len(self.cuts)

        def close(s):
            s = set(s)
            todo = list(s)
            while todo:
                for m in eps[todo.pop()]:
                    if m not in s:
                        s.add(m)
                        todo.append(m)
            return frozenset(s)

        s0 = close([start])
        ids = {s0: 0}
        order = [s0]
        self.trans = []
        i = 0
        while i < len(order):
            S = order[i]
            row = [None] * nclass
            for c in range(nclass):
                cp = self.cuts[c]
                T = {b for a in S for iv, b in edges[a] if any(lo <= cp <= hi for lo, hi in iv)}
                if T:
                    T = close(T)
                    if T not in ids:
                        ids[T] = len(order)
                        order.append(T)
                    row[c] = ids[T]
            self.trans.append(row)
            i += 1
        self.accept = []
        for S in order:
            a = [final[s] for s in S if s in final]
            self.accept.append(min(a) if a else None)

    def cls(self, cp):
        return bisect.bisect_right(self.cuts, cp) - 1

    def class_intervals(self):
        for i, a in enumerate(self.cuts):
            yield a, (self.cuts[i + 1] - 1 if i + 1 < len(self.cuts) else MAXCP)

    def scan(self, text):
        """-> (tokens, err): tokens are (name, start, stop) without skipped ones; err is the start of the
        first piece of text no rule matches, or None."""
        toks, i, n = [], 0, len(text)
        while i < n:
            st, j, best = 0, i, None
            while j < n:
                st = self.trans[st][self.cls(ord(text[j]))]
                if st is None:
                    break
                j += 1
                if self.accept[st] is not None:
                    best = (j, self.accept[st])
            if best is None:
                return toks, i
            name, skip = self.rules[best[1]]
            if not skip:
                toks.append((name, i, best[0]))
            i = best[0]
        return toks, None


def equivalent(d1, d2):
    """Product construction; returns (None, states, transitions) or (distinguishing string, ..)."""
    cuts = sorted(set(d1.cuts) | set(d2.cuts))
    name = lambda d, s: None if s is None or d.accept[s] is None else d.rules[d.accept[s]]  # noqa: E731
    seen = {(0, 0): ""}
    todo = [(0, 0)]
    ntr = 0
    for p in todo:
        w = seen[p]
        if name(d1, p[0]) != name(d2, p[1]):
            return w, len(seen), ntr
        for c in cuts:
            ntr += 1
            q = tuple(None if s is None else d.trans[s][d.cls(c)] for d, s in ((d1, p[0]), (d2, p[1])))
            if q != (None, None) and q not in seen:
                seen[q] = w + chr(c)
                todo.append(q)
    return None, len(seen), ntr
