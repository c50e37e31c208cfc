"""C21 C22 C23 C24 C25: validation"""
import itertools
import re

from mc import boot  # noqa: F401
import fcsql
from fcsql import validation as fv
from fcsql.parser import ErrorDetail, Expression, Operator, QueryParser, QueryParserException
from fcsql.validation import FCSQLValidator, SpecificationValidationError, Validator

from mc import impl, model as M, spaces as S
from mc.core import Violation, require
from mc.model import LEXER

# ---------------------------------------------------------------- reference rules
LAYERS = ("text", "lemma", "pos", "orth", "norm", "phonetic")
TAGS = ("ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X").split()
# characters with a meaning in regular expressions: those the standard library escapes, except the space
SPECIAL = {chr(c) for c in range(0x110000) if re.escape(chr(c)) != chr(c)} - {" "}
ERR, WARN = "validation-error", "validation-warning"


def ref_cond(cond, ids, quals):
    """issues of one condition: [(kind, which rule)]"""
    q, name, _, pattern, flags = cond.attrs
    out = []
    if ids:
        if name not in ids:
            out.append((ERR, "layer"))
    elif name not in LAYERS:
        if name == "word":
            out.append((WARN, "legacy"))
        elif name[:2] == "x-":
            out.append((WARN, "custom"))
        else:
            out.append((ERR, "layer"))
    if q is not None and quals:
        allowed = dict(quals).get(name)
        if not allowed or q not in allowed:
            out.append((ERR, "qualifier"))
    if name == "pos" and q is None and not flags and pattern not in TAGS and not any(c in SPECIAL for c in pattern):
        out.append((WARN, "tag"))
    return out


def ref_issues(tree, ids=None, quals=None):
    """[(kind, rule, span)] in text order"""
    return [(k, r, n.span) for n in M.walk(tree) if n.kind == "cond" for k, r in ref_cond(n, ids, quals)]


# ---------------------------------------------------------------- observation
MARK = {  # what a message must name
    "layer": lambda n: n.attrs[1],
    "legacy": lambda n: n.attrs[1],
    "custom": lambda n: n.attrs[1],
    "qualifier": lambda n: n.attrs[0],
    "tag": lambda n: n.attrs[3],
}


def conds(root):
    return [n for n in impl.nodes(root) if isinstance(n, Expression)]


def span(d):
    return None if d.position is None else (d.position.start, d.position.stop)


IDS = [None, ["text", "foo"], ["pos", "x-y", "zzz"], ["word"]]
QUALS = [
    None,
    [("text", ["q"])],
    [("text", None), ("pos", ["r", "q"]), ("word", ["q"])],
    [("zzz", ["p"]), ("text", ["p", "pq"]), ("x-y", [])],
]
CONDS = [
    'text="a"',
    'foo="a"',
    'word="a"',
    'x-y="a"',
    'pos="foo"',
    'q:text!="a"/i',
    'q:zzz="a"',
    'pos="NOUN"',
]
EXTRA = ['q:pos="foo"', 'r:pos="foo"', 'pos="foo"/i', 'pos="a.b"', 'p:text="a"', 'q:x-y="a"', 'q:word="a"', 'Text="a"', 'X-y="a"', 'x="a"', 'p:zzz="a"']


def shapes(nq, ne):
    """query texts with numbered slots for conditions {0} {1} ...: every shape up to a size"""
    out = []
    for s in S.expr_sentences(ne):
        n = 0
        w = []
        for t in s:
            if t == "C":
                w.append("{%d}" % n)
                n += 1
            else:
                w.append(t)
        out.append(("[" + " ".join(w) + "]", n))
    for s in S.query_sentences(nq, alphabet=("B", "P", "(", ")", "|", "Q", "W")):
        n = 0
        w = []
        for k, t in enumerate(s):
            if t == "B":
                w.append("[{%d}]" % n)
                n += 1
            elif t == "P":
                w.append('"p"')
            elif t == "Q":
                w.append(["*", "{{2,3}}", "+"][k % 3])
            elif t == "W":
                w.append("within s")
            else:
                w.append(t)
        if n:
            out.append((" ".join(w), n))
    out += [("([{0} | !({1} & {2})] [])+ \"p\" | [{3}]{{2}} within t", 4), ("\u00fc".join(['"', '"']) + " [{0}]\n\n( [{1}] | (\t[{2}] ) )", 3)]
    return out


def vectors(n, full):
    """assignments of condition kinds to n slots"""
    k = len(CONDS)
    if n <= full:
        yield from itertools.product(range(k), repeat=n)
        return
    for a in range(k):
        for i in range(n):
            yield tuple(a if j == i else 0 for j in range(n))
            yield tuple(a if j == i else 1 for j in range(n))
            yield tuple(a if j >= i else 7 for j in range(n))
    for a, b in itertools.product(range(k), repeat=2):
        yield tuple((a, b)[j % 2] for j in range(n))


def texts_of(shape, full):
    text, n = shape
    for v in sorted(set(vectors(n, full))):
        yield text.format(*[CONDS[i] for i in v])


def collected(root, text, ids=None, quals=None, wae=False, cls=FCSQLValidator):
    v = cls(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals, raise_at_first_violation=False, warnings_as_errors=wae)
    r = v.validate(root, query=text)
    return r, list(v.errors), list(v.warnings)


def match(got, want, ref, text, what):
    """collected details against reference issues of one kind; text order"""
    require([span(d) for d in got] == [w[2] for w in want], "%r: %s expected at %r, reported at %r (%r)", text, what, [(w[1], w[2]) for w in want], [span(d) for d in got], [d.message for d in got])
    for d, (k, rule, sp) in zip(got, want):
        require(d.type == k, "%r: issue of kind %r, expected %r", text, d.type, k)
        require(isinstance(d.message, str) and MARK[rule](ref[sp]) in d.message, "%r: the message %r of the %s issue does not name %r", text, d.message, rule, MARK[rule](ref[sp]))


def judge_rules(text, settings, cfg=M.DEFAULT):
    tree = M.parse(text, cfg)
    ref = {n.span: n for n in M.walk(tree) if n.kind == "cond"}
    root = QueryParser(enableSourceLocations=True, default_identifier=cfg.name, default_operator=impl.OPS_INV[cfg.op], unicode_normalization_form=cfg.norm).parse(text)
    impl.same(impl.tree(root), tree, text)
    obs = []
    for ids, quals in settings:
        want = ref_issues(tree, ids, quals)
        r, errs, warns = collected(root, text, ids, quals)
        where = f"{text!r} with layers {ids!r}, qualifiers {quals!r}"
        match(errs, [w for w in want if w[0] == ERR], ref, where, "errors")
        match(warns, [w for w in want if w[0] == WARN], ref, where, "warnings")
        require(r is not bool(errs), "%s: validate() gives %r with errors %r", where, r, errs)
        obs.append(tuple(w[1] for w in want))
    return obs


ALLSET = list(itertools.product(IDS, QUALS))
FEWSET = [(None, None), (IDS[1], QUALS[1]), (IDS[2], None), (None, QUALS[2]), (IDS[3], QUALS[3])]


# ---------------------------------------------------------------- C22
def c22_shape(item):
    shape, full, few = item
    obs, n = set(), 0
    for t in texts_of(shape, full):
        sets = FEWSET if few else ALLSET
        obs.add(tuple(judge_rules(t, sets)))
        n += len(sets)
    return {"obs": (shape, len(obs)), "trans": n, "traces": n}


def names():
    base = list(LAYERS) + ["word", "x-y", "x-text", "x-", "foo", "zzz", "x", "X", "q", "within", "s", "i", "sentence", "ids", "x-x-y", "xy"]
    out = set()
    for b in base + S.mined().names():
        for v in (b, b.upper(), b.capitalize(), b + "s", "x" + b, "x-" + b, "X-" + b, b[:-1], b[1:], b + "-a", "a-" + b, b + "1"):
            out.add(v)
    ok = []
    for w in sorted(out):
        toks, err = LEXER.scan(w)
        if w and err is None and len(toks) == 1 and toks[0][0] in ("NAME", "within", "SCOPE", "FLAGS"):
            ok.append(w)
    return ok


def c22_name(name):
    """one layer name under lists that have it, nearly have it, and lack it, with and without qualifiers"""
    qs = [None, "q", "p", "Q", "qq", name]
    lists = [None, [name], [name + "x", "x" + name], [name.upper(), name], [name.swapcase()], ["text", "word", "foo"]]
    quals = [None, [(name, ["q"])], [(name, None)], [(name, [])], [(name + "x", ["q"]), ("text", ["p"])], [("text", ["q"]), (name if name != "text" else "zz", ["p", "qq", name])]]
    n, obs = 0, set()
    for q in qs:
        for t in (f'[{q + ":" if q else ""}{name}="NOUN"]', f'"p" ([{q + ":" if q else ""}{name}!="a b"/c & text=".*"] | [!{name}=""])+'):
            obs.add(tuple(judge_rules(t, list(itertools.product(lists, quals)))))
            n += len(lists) * len(quals)
    return {"obs": (name, len(obs)), "traces": n, "trans": n}


def c22_later(item):
    """the lists that hold are the ones a validator has when it validates"""
    text, a, b = item
    tree = M.parse(text)
    ref = {n.span: n for n in M.walk(tree) if n.kind == "cond"}
    root = QueryParser(enableSourceLocations=True).parse(text)
    v = FCSQLValidator(allowed_layer_identifiers=a[0], allowed_layer_qualifiers=a[1], raise_at_first_violation=False)
    n = 0
    for used in (False, True):
        for ids, quals in (b, a, b):
            v.allowed_layer_identifiers, v.allowed_layer_qualifiers = ids, quals
            if not used and (ids, quals) != b:
                continue
            want = ref_issues(tree, ids, quals)
            r = v.validate(root, query=text)
            where = f"{text!r} with layers set to {ids!r}, qualifiers set to {quals!r}"
            match(v.errors, [w for w in want if w[0] == ERR], ref, where, "errors")
            match(v.warnings, [w for w in want if w[0] == WARN], ref, where, "warnings")
            require(r is not bool(v.errors), "%s: validate() gives %r", where, r)
            n += 1
    return {"obs": (text, str(a), str(b)), "traces": n, "trans": n}


def c22_dim(item):
    d, n = item
    q = S.dimension_query(item)
    judge_rules(q, FEWSET)
    if d in ("or", "and", "alternatives", "sequence"):
        # one bad condition at each end and in the middle of many good ones
        for k in sorted({0, n // 2, n - 1}):
            cs = [('foo="a"' if i == k else 'text="a"') for i in range(n)]
            sep = {"or": "|", "and": "&", "alternatives": "] | [", "sequence": "] ["}[d]
            judge_rules("[" + sep.join(cs) + "]", [(None, None)])
    return {"obs": item, "traces": 8}


def C22(ctx):
    nq, ne = ctx.pick((4, 6), (5, 8))
    full = ctx.pick(2, 3)
    sh = shapes(nq, ne)
    ctx.run("shapes x condition kinds x settings", c22_shape, [(s, full if s[1] <= 2 or ctx.thorough else 1, s[1] > 2) for s in sh],
            f"query words <= {nq}, expression words <= {ne}; all kinds in up to {full} slots, one-off and alternating vectors beyond")
    ns = names()
    ctx.run("layer names x qualifiers x lists", c22_name, ns, f"{len(ns)} names x 6 qualifiers x 36 settings")
    ctx.run("extra conditions", c22_shape, [((f"[{a} & ({b} | !{a})] [{b}]", 0), 0, False) for a in EXTRA + CONDS for b in EXTRA + CONDS], "all pairs")
    ctx.run("base queries", c22_text, S.VALID, "one per construct")
    lt = [f"[{c}]" for c in CONDS + EXTRA] + [f"[{a} & !({b})] within s" for a in CONDS for b in CONDS]
    ctx.run("lists set later", c22_later, [(t, a, b) for t in lt for a in FEWSET for b in FEWSET], f"{len(lt)} queries x every pair of {len(FEWSET)} settings")
    ctx.run("features together", c22_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("other configurations", c22_cfg, S.features(ctx.pick(2, 3)), f"{len(S.CONFIGS) // 2} ways to set up the parser x every choice of up to {ctx.pick(2, 3)} of 12 features away from three base queries")
    ctx.run("long conditions", c22_text, S.long_conditions(S.sizes(130) + S.big_sizes(ctx.pick(1025, 5001))), "conditions long in one way: up to 40 characters, around powers of two and round numbers")
    ctx.run("sizes", c22_dim, S.dimension_items(["or", "and", "and-in-or", "and-not", "alternatives", "sequence", "segments", "negations", "not-groups", "expression-groups", "query-groups", "sequence-of-groups", "name-length"], cap=ctx.pick(70, None)), "every dimension up to its limit")
    ctx.run("big sizes", c22_dim, S.big_items(ctx.pick(513, 5001), ctx.pick(20001, 70001), ["or", "and", "alternatives", "sequence", "segments", "name-length", "qualifier-length"]), "number of conditions, lengths of names, around powers of two and round numbers")


def c22_cfg(text):
    """trees of parsers set up in other ways: a bare pattern is a condition on the layer configured"""
    return {"obs": tuple(str(judge_rules(text, FEWSET, M.Cfg(*c[:3]))) for c in S.CONFIGS if c[3]), "traces": len(FEWSET) * len(S.CONFIGS) // 2}


def c22_text(text):
    return {"obs": tuple(judge_rules(text, ALLSET))}


# ---------------------------------------------------------------- C23
def lib_regex(s):
    return any(c in SPECIAL for c in s)


def c23_regex(chunk):
    for s in chunk:
        got = fv.is_likely_a_regex(s)
        require(got is lib_regex(s), "is_likely_a_regex(%r) is %r, special characters: %r", s, got, [c for c in s if c in SPECIAL])
    return {"obs": (chunk[0], sum(map(lib_regex, chunk))), "traces": len(chunk), "trans": len(chunk)}


def c23_long(n):
    k = 0
    for fill in ("a", "N", " ", "\u00fc"):
        for c in SPECIAL if n <= 1025 else ".*\\(":
            k += c23_regex([fill * n + c, c + fill * n, fill * n + c + fill * n])["traces"]
        k += c23_regex([fill * n, fill * n + '"'])["traces"]
    ps = ("N" * n, "n" * n, "NOUN" + "x" * n, " " * n + "NOUN", "a" * n + ".", "NOUN|" * min(n, 2000) + "NOUN")
    k += c23_pattern(ps)["traces"]
    return {"obs": (n, k), "traces": k, "trans": k}


def c23_points(item):
    return c23_regex([f % chr(c) for c in range(*item) for f in ("%s", "a%s", "%s ")])


def pos_cond(pattern, flags=None, qualifier=None, name="pos"):
    fl = {impl_flag(f) for f in flags or ()}
    return Expression(qualifier, name, impl.fp.Operator.EQUALS, pattern, fl)


def impl_flag(c):
    return {"i": impl.fp.RegexFlag.CASE_INSENSITIVE, "I": impl.fp.RegexFlag.CASE_SENSITIVE, "l": impl.fp.RegexFlag.LITERAL_MATCHING, "d": impl.fp.RegexFlag.IGNORE_DIACRITICS}[c]


def warned(node):
    v = FCSQLValidator(raise_at_first_violation=False, allowed_layer_identifiers=[node.identifier])
    r = v.validate(node)
    require(r is True and not v.errors, "%s: errors %r", node, v.errors)
    require(len(v.warnings) <= 1, "%s: %d warnings", node, len(v.warnings))
    w = FCSQLValidator(raise_at_first_violation=False, allowed_layer_identifiers=[node.identifier], warnings_as_errors=True)
    require(w.validate(node) is (not v.warnings), "%s: counting warnings gives %r with %d warnings", node, w.validate(node), len(v.warnings))
    return bool(v.warnings)


def c23_pattern(chunk):
    """each pattern on the pos layer without and with flags, with a qualifier, on other layers"""
    for p in chunk:
        want = p not in TAGS and not lib_regex(p)
        got = warned(pos_cond(p))
        require(got is want, "[pos=%r]: warned %r, expected %r", p, got, want)
        for fl in ("i", "I", "l", "d", "id"):
            require(not warned(pos_cond(p, fl)), "[pos=%r/%s]: warned although flags are given", p, fl)
        require(not warned(pos_cond(p, None, "x")), "[x:pos=%r]: warned although qualified", p)
        for what, x, y in (("qualifier", "x", ""), ("qualifier", "x", None), ("regex_flags", "i", set()), ("regex_flags", "i", None)):
            c = pos_cond(p, x if what == "regex_flags" else None, x if what == "qualifier" else None)
            setattr(c, what, y)
            require(warned(c) is want, "[pos=%r] with its %s emptied to %r: warned %r, expected %r", p, what, y, not want, want)
        for n in ("text", "lemma", "Pos", "poss", "po", "word", "x-pos"):
            require(not warned(pos_cond(p, None, None, n)), "[%s=%r]: warned although another layer", n, p)
    return {"obs": (chunk[0], len(chunk)), "traces": 14 * len(chunk), "trans": 14 * len(chunk)}


def c23_query(item):
    """through the parser: pattern text as written in the query, at several positions, either operator"""
    p, fl = item
    n = 0
    for quote in "\"'":
        body = p.replace("\\", "\\\\").replace('"', '\\"').replace("'", "\\'").replace("\n", "\\n").replace("\t", "\\t")
        c = f"pos{'=' if quote == chr(34) else ' != '}{quote}{body}{quote}" + ("/" + fl if fl else "")
        for t in (f"[{c}]", f'["a"] | ("b" [text="x" & !({c} | {c})]{{2,}})'.replace('["a"]', '"a"'), f"[x:{c}] [{c}]"):
            judge_rules(t, [(None, None), (["pos"], None), (["text"], [("pos", ["x"])])])
            n += 3
    return {"obs": item, "traces": n}


def chunks(xs, n=200):
    xs = list(xs)
    return [tuple(xs[i : i + n]) for i in range(0, len(xs), n)]


def patterns():
    """tags, their variants, all short words, mined strings"""
    out = set()
    for t in TAGS + ["CONJ", "POS", "pos", "NN", "ADJA", "", " "] + sorted(S.mined().strs):
        for v in (t, t.lower(), t.capitalize(), t + "S", "A" + t, t[:-1], t[1:], t + " ", " " + t, t + "\n", t[::-1], t + "-" + t, t + "|" + t, t + "_", t + t, t + "\u0301", t.replace("O", "\u041e")):
            out.add(v)
    for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
        out.add(a)
        out.add(a.lower())
    al = "abNX .*+?()[]{}|^$\\-&~#\t\n\r\x0b\x0c\"'/!=<>@%,:;`_1\u00fc\u2013\x00\xa0"
    out |= {a + b for a in al for b in al}
    return sorted(out)


def C23(ctx):
    if ctx.thorough:
        rng = [(a, a + 512) for a in range(0, 0x110000, 512)]
    else:
        rng = [(a, a + 128) for a in range(0, 0x3100, 128)] + [(0xD780, 0xE080), (0xFD00, 0x10080), (0x1F5C0, 0x1F640), (0x10FF80, 0x110000)]
    ctx.run("regex test: every character", c23_points, rng, "all code points" if ctx.thorough else "code points 0-30FF and around the borders of the planes")
    al = "aN .*\\-(\t\n#\u00fc_\"/"
    n = ctx.pick(4, 5)
    ctx.run("regex test: all strings", c23_regex, chunks(("".join(p) for k in range(n + 1) for p in itertools.product(al, repeat=k)), 1000), f"length <= {n} over {len(al)} characters")
    ps = patterns()
    if ctx.thorough:
        up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        ps = sorted(set(ps) | {"".join(p) for k in (1, 2, 3) for p in itertools.product(up, repeat=k)})
    ctx.run("patterns on conditions", c23_pattern, chunks(ps, 50), f"{len(ps)} patterns x flags x qualifier x layers")
    good = [p for p in ps if not any(ord(c) < 32 and c not in "\n\t" for c in p)]
    if not ctx.thorough:
        good = [p for p in good if any(t in p.upper() for t in TAGS if len(t) > 1) or len(p) < 2] + good[::7]
    if ctx.thorough:
        good = [p for p in good if len(p) != 3 or not p.isupper()]
    ctx.run("patterns in queries", c23_query, [(p, f) for p in good for f in ("", "i")], f"{len(good)} patterns, with and without flag, three queries, two quote characters")
    big = [("N" * n, "") for n in S.sizes(ctx.pick(300, 3000))] + [("NOUN" + " " * n, "") for n in S.sizes(300)] + [("a" * n + "." , "") for n in S.sizes(300)]
    ctx.run("long patterns", c23_query, big, "sizes")
    ctx.run("very long patterns", c23_long, S.sizes(300) + S.big_sizes(ctx.pick(70001, 300000)), "one character of any kind after, before and amid very many others; around powers of two and round numbers")


# ---------------------------------------------------------------- C24
def judge_modes(text, settings):
    tree = M.parse(text)
    obs = []
    for loc in (True, False):
        root = QueryParser(enableSourceLocations=loc).parse(text)
        nodes = conds(root)
        spans = [n.span for n in M.walk(tree) if n.kind == "cond"]
        require(len(nodes) == len(spans), "%r: %d conditions in the tree, %d expected", text, len(nodes), len(spans))
        for ids, quals in settings:
            want = [(k, r, i) for i, n in enumerate(x for x in M.walk(tree) if x.kind == "cond") for k, r in ref_cond(n, ids, quals)]
            for given in ("ctor", "arg", "none", "later"):
                for wae in (False, True):
                    obs.append(one_mode(text, root, nodes, spans, loc, ids, quals, want, given, wae))
    return tuple(sorted(set(obs)))


def make(ids, quals, given, text, wae, raising):
    if given == "later":
        # made with quite different settings, all of them set before it is used
        v = FCSQLValidator(allowed_layer_identifiers=None if ids else ["zz"], allowed_layer_qualifiers=None if quals else [("zz", ["q"])], warnings_as_errors=not wae, raise_at_first_violation=not raising, query="" if len(text) % 2 else text + text)
        v.allowed_layer_identifiers, v.allowed_layer_qualifiers, v.warnings_as_errors, v.raise_at_first_violation, v.query = ids, quals, wae, raising, text
        return v, {}
    kw = {"query": text} if given == "ctor" else {}
    v = FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals, warnings_as_errors=wae, raise_at_first_violation=raising, **kw)
    return v, ({"query": text} if given == "arg" else {})


def one_mode(text, root, nodes, spans, loc, ids, quals, want, given, wae):
    where = f"{text!r} (layers {ids!r}, qualifiers {quals!r}, warnings_as_errors={wae}, query {given}, locations {loc})"
    frag = lambda i: text[slice(*spans[i])] if loc and given != "none" else None  # noqa: E731
    pos = lambda i: spans[i] if loc else None  # noqa: E731
    v, kw = make(ids, quals, given, text, wae, False)
    res = v.validate(root, **kw)
    errs, warns = list(v.errors), list(v.warnings)
    for got, kind in ((errs, ERR), (warns, WARN)):
        exp = [(w[0], pos(w[2]), frag(w[2])) for w in want if w[0] == kind]
        have = [(d.type, span(d), d.fragment) for d in got]
        require(have == exp, "%s: collected\n  %r\nexpected\n  %r", where, have, exp)
    counted = [w for w in want if wae or w[0] == ERR]
    require(res is (not counted), "%s: validate() gives %r with %d issues that count", where, res, len(counted))
    require(v.is_valid(root, **kw) is res, "%s: is_valid() of the collecting validator differs", where)
    # raising
    v, kw = make(ids, quals, given, text, wae, True)
    try:
        r2 = v.validate(root, **kw)
    except SpecificationValidationError as ex:
        require(counted, "%s: raises %r, nothing that counts was collected", where, str(ex))
        kind, rule, i = counted[0]
        require(ex.node is nodes[i], "%s: raises for %s, first issue is at %s", where, ex.node, nodes[i])
        require(ex.query_fragment == frag(i), "%s: raised fragment %r, expected %r", where, ex.query_fragment, frag(i))
        # message of the first such issue: k-th of its kind
        same = [w for w in want if w[0] == kind]
        lst = errs if kind == ERR else warns
        msg = lst[[id(w) for w in same].index(id(counted[0]))].message
        require(str(ex) == msg, "%s: raises %r, collected %r", where, str(ex), msg)
    else:
        require(not counted and r2 is True, "%s: returns %r, collecting finds %d issues that count", where, r2, len(counted))
    v, kw = make(ids, quals, given, text, wae, True)
    require(v.is_valid(root, **kw) is res, "%s: is_valid() of the raising validator differs", where)
    return len(errs), len(warns), res


def c24_shape(item):
    shape, full, few = item
    obs, n = set(), 0
    for t in texts_of(shape, full):
        sets = FEWSET[:2] if few else FEWSET
        obs.add(judge_modes(t, sets))
        n += len(sets) * 16
    return {"obs": (shape, len(obs)), "trans": n * 4, "traces": n * 4}


DEFAULTS = {"query": None, "raise_at_first_violation": True, "warnings_as_errors": False, "allowed_layer_identifiers": None, "allowed_layer_qualifiers": None}
OTHER = {"query": "x" * 80, "raise_at_first_violation": False, "warnings_as_errors": True, "allowed_layer_identifiers": ["word", "foo"], "allowed_layer_qualifiers": [("foo", ["q"])]}


class PlainValidator(Validator):
    """the shipped base class, reporting every condition"""

    def visit_Expression(self, node):
        if node.operator is Operator.NOT_EQUALS:
            self.validation_error(node, "ne")
        self.validation_warning(node, "cond " + node.identifier)
        return super().visit_Expression(node)


def c24_defaults(item):
    """settings that are left out have their documented defaults"""
    text, given = item
    root = QueryParser(enableSourceLocations=True).parse(text)

    def run(cls, kw):
        v = cls(**kw)
        out = []
        for f in (v.validate, v.is_valid):
            try:
                r = f(root)
            except SpecificationValidationError as ex:
                r = (str(ex), ex.query_fragment)
            out.append((r, [key(d) for d in v.errors], [key(d) for d in v.warnings]))
        return out

    for cls in (FCSQLValidator, PlainValidator):
        keys = [k for k in DEFAULTS if cls is FCSQLValidator or not k.startswith("allowed")]
        kw = {k: OTHER[k] for k in keys if k in given}
        got, want = run(cls, kw), run(cls, {**{k: DEFAULTS[k] for k in keys}, **kw})
        require(got == want, "%r: %s with %r gives\n  %r\nwith the defaults written out\n  %r", text, cls.__name__, kw, got, want)
    return {"obs": (item, str(want)), "traces": 8}


def c24_text(text):
    return {"obs": (text, judge_modes(text, FEWSET)), "traces": 60, "trans": 240}


def C24(ctx):
    nq, ne = ctx.pick((4, 5), (5, 7))
    full = ctx.pick(2, 3)
    ctx.run("shapes x issue vectors x settings x modes", c24_shape, [(s, full if s[1] <= 2 or ctx.thorough else 1, s[1] > 1) for s in shapes(nq, ne)],
            f"query words <= {nq}, expression words <= {ne}; all kinds in up to {full} slots; locations on/off, query given three ways, both modes, warnings counted or not")
    subsets = [frozenset(s) for k in range(len(DEFAULTS) + 1) for s in itertools.combinations(DEFAULTS, k)]
    ctx.run("settings left out", c24_defaults, [(t, s) for t in HQ + ['[foo!="a" & q:foo!="b"] [word="a"]'] for s in subsets], "every subset of the five settings")
    vec = [" ".join(f"[{CONDS[i]}]" for i in v) for k in (3, ctx.pick(3, 4)) for v in itertools.product(range(1, 7), repeat=k)]
    ctx.run("all issue vectors", c24_text, sorted(set(vec)), f"length {ctx.pick(3, 4)} over six kinds of issue")
    ctx.run("base queries in layouts", c24_text, [x for b in S.VALID for x in (b, "\n  " + b, b.replace(" ", "\u2003\n"))], "one per construct")
    ctx.run("features together", c24_text, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    big = [" ".join(f"[{CONDS[(i * 5 + 1) % 7]}]" for i in range(n)) for n in S.sizes(ctx.pick(60, 200))]
    ctx.run("issues at any node", c24_placed, [(t, loc, ks) for t in S.VALID for loc in (True, False) for r in (1, 2) for ks in itertools.product((ERR, WARN), repeat=r)], "a validator of one's own: one and two issues at every node, before and after its children")
    ctx.run("number of issues", c24_text, big, "sizes")
    ctx.run("long conditions", c24_text, S.long_conditions(S.sizes(130) + S.big_sizes(ctx.pick(2049, 20001))), "conditions long in one way: up to 40 characters, around powers of two and round numbers")
    huge = [" ".join(f"[{CONDS[(i * 5 + 1) % 7]}]" for i in range(n)) for n in S.big_sizes(ctx.pick(1025, 5001))] + [" ".join(f"[{CONDS[a if i != k else b]}]" for i in range(n)) for n in (200, 1100) for a, b in ((1, 4), (4, 1)) for k in (0, n // 2, n - 1)]
    huge += [f"[{c}]" * n for c in CONDS for n in S.big_sizes(ctx.pick(1025, 5001))[::3] + [1100]]
    ctx.run("very many issues", c24_text, huge, "around powers of two and round numbers")


class Placed(Validator):
    """reports at given nodes, on the way in or on the way out"""

    plan: dict = {}

    def report(self, node, when):
        for k, (kind, msg) in enumerate(self.plan.get((id(node), when), ())):
            (self.validation_error if kind == ERR else self.validation_warning)(node, msg)


def _placed():
    for h in HANDLERS:

        def visit(self, node, h=h):
            self.report(node, "in")
            r = getattr(Validator, "visit_" + h)(self, node)
            self.report(node, "out")
            return r

        setattr(Placed, "visit_" + h, visit)


HANDLERS = ["Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr", "QueryDisjunction", "QuerySequence", "QueryWithWithin", "QuerySegment", "QueryGroup", "SimpleWithin"]
_placed()


def c24_placed(item):
    """issues of any kind at any node, from a validator of one's own"""
    text, loc, kinds = item
    root = QueryParser(enableSourceLocations=loc).parse(text)
    order = []

    def go(x):
        order.append((x, "in"))
        for c in x.children:
            go(c)
        order.append((x, "out"))

    go(root)
    n, obs = 0, set()
    for at in itertools.combinations_with_replacement(range(len(order)), len(kinds)):
        plan = {}
        want = []
        for k, (i, kind) in enumerate(zip(at, kinds)):
            x, when = order[i]
            plan.setdefault((id(x), when), []).append((kind, f"m{k}"))
            want.append((kind, f"m{k}", x))
        for wae in (False, True):
            for raising in (False, True):
                v = Placed(query=text, raise_at_first_violation=raising, warnings_as_errors=wae)
                v.plan = plan
                where = "%r: issues at %r, warnings_as_errors=%s, raise_at_first_violation=%s" % (text, [(str(order[i][0]), order[i][1], k) for i, k in zip(at, kinds)], wae, raising)
                counted = [w for w in want if wae or w[0] == ERR]
                frag = lambda x: text[slice(*impl.span(x))] if x.location else None  # noqa: E731
                try:
                    r = v.validate(root)
                except SpecificationValidationError as ex:
                    require(raising and counted, "%s: raises %s", where, ex)
                    first = counted[0]
                    require((str(ex), ex.query_fragment) == (first[1], frag(first[2])) and ex.node is first[2], "%s: raises %s for %r, expected %s for %r", where, ex, ex.query_fragment, first[1], frag(first[2]))
                else:
                    require(not (raising and counted), "%s: nothing raised", where)
                    require(r is (not counted), "%s: the answer is %r", where, r)
                    for kind, got in ((ERR, v.errors), (WARN, v.warnings)):
                        exp = [(kind, m, frag(x), impl.span(x) if loc else None) for k, m, x in want if k == kind]
                        have = [(d.type, d.message, d.fragment, span(d)) for d in got]
                        require(have == exp, "%s: collected %r, expected %r", where, have, exp)
                    obs.add((r, len(v.errors), len(v.warnings)))
                n += 1
    return {"obs": (item, n, tuple(sorted(obs))), "traces": n, "trans": n}


# ---------------------------------------------------------------- C21
def key(d):
    return impl.detail(d)


def judge_one_call(text):
    p = QueryParser(enableSourceLocations=True)
    st = M.status(text)
    root = None
    try:
        root = p.parse(text)
        base = None
    except QueryParserException as ex:
        base = [key(d) for d in p.errors] or [(str(ex),)]
    verdicts = {}
    for wae in (False, True):
        if base is None:
            require(st[0] == "ok", "%r: parsed, the model says %r", text, st)
            v = FCSQLValidator(query=text, raise_at_first_violation=False, warnings_as_errors=wae)
            ok = v.validate(root)
            want = [key(d) for d in v.errors] + ([key(d) for d in v.warnings] if wae else [])
            require(ok is (not want), "%r: collecting validator: %r with %r", text, ok, want)
            ref = [i for i in ref_issues(st[1]) if wae or i[0] == ERR]
            require(sorted((k, s) for k, _, s in ref) == sorted((d[1], d[2]) for d in want), "%r: issues %r, expected %r", text, want, ref)
        else:
            want = base
        for kw in ({}, {"version": fv.DEFAULT_VALIDATOR_SPECIFICATION_VERSION}):
            if kw and len(text) > 200:
                continue
            opts = dict(kw, warnings_as_errors=True) if wae else dict(kw, warnings_as_errors=False) if kw else {}
            got = fcsql.validate(text, return_errors=True, **opts)
            require(isinstance(got, list) and all(isinstance(d, ErrorDetail) for d in got), "%r: list of errors is %r", text, got)
            have = [key(d)[: len(w)] for d, w in zip(got, want)] if len(got) == len(want) else [key(d) for d in got]
            require(sorted(map(repr, have)) == sorted(map(repr, want)), "%r (%r): validate() lists\n  %r\nits parts report\n  %r", text, opts, got, want)
            for t in {d[1] for d in want if len(d) > 1}:
                require([d for d in have if d[1] == t] == [d for d in want if d[1] == t], "%r (%r): validate() lists the %s issues in another order:\n  %r\nits parts report\n  %r", text, opts, t, got, want)
            ans = fcsql.validate(text, **opts)
            require(ans is (not want), "%r (%r): answer %r, errors %r", text, opts, ans, want)
            if kw:
                require(fcsql.validate(text, return_errors=False, **opts) is ans, "%r: return_errors=False differs from the default", text)
        verdicts[wae] = not want
    require(verdicts[False] or not verdicts[True], "%r: counting warnings makes it valid", text)
    return st[0], verdicts[False], verdicts[True]


def c21_spelled(text):
    """settings given by other true and false values"""
    n = 0
    for yes, no in ((1, 0), ("yes", ""), ([0], None), (2.5, ())):
        for wae, re in itertools.product((False, True), repeat=2):
            got = fcsql.validate(text, return_errors=yes if re else no, warnings_as_errors=yes if wae else no)
            want = fcsql.validate(text, return_errors=re, warnings_as_errors=wae)
            same = got is want if not re else isinstance(got, list) and [key(d) for d in got] == [key(d) for d in want]
            require(same, "%r: return_errors=%r, warnings_as_errors=%r gives\n  %r\nwith %s, %s:\n  %r", text, yes if re else no, yes if wae else no, got, re, wae, want)
            n += 2
    return {"obs": (text, n), "traces": n, "trans": n}


VERSIONS = ["1.0", "", "2", "2.20", "2.2 ", " 2.2", "2.1", "2.3", "v2.2", "2,2", "2.2.0", "fcs", None, 2.2, "2.\u0662"]


def c21_versions(text):
    for ver in VERSIONS:
        for kw in ({}, {"return_errors": True}, {"warnings_as_errors": True}, {"return_errors": True, "warnings_as_errors": True}):
            try:
                r = fcsql.validate(text, version=ver, **kw)
            except ValueError:
                continue
            raise Violation(f"{text!r}: unknown version {ver!r} gives {r!r}")
    return {"obs": text, "traces": len(VERSIONS) * 4}


class NoWildcards(Validator):
    """a validator of one's own"""

    def visit_ExpressionWildcard(self, node):
        self.validation_error(node, "wildcard")
        return super().visit_ExpressionWildcard(node)

    def visit_QueryGroup(self, node):
        self.validation_warning(node, "group")
        return super().visit_QueryGroup(node)


class OnlyFoo(FCSQLValidator):
    def __init__(self, **kw):
        super().__init__(allowed_layer_identifiers=["foo"], **kw)


def c21_registered(text):
    """a version stands for the validator registered for it, at the time of the call"""
    saved = dict(fv.VALIDATORS)
    p = QueryParser(enableSourceLocations=True)
    try:
        root = p.parse(text)
    except QueryParserException as ex:
        root, base = None, [key(d) for d in p.errors] or [(str(ex),)]
    n = 0
    try:
        for reg in ({"own": NoWildcards}, {"own": OnlyFoo, "2.2": NoWildcards}, {"own": FCSQLValidator, "3.0": OnlyFoo}, {"own": OnlyFoo}):
            fv.VALIDATORS.clear()
            fv.VALIDATORS.update(saved)
            fv.VALIDATORS.update(reg)
            for ver in ("own", "2.2", "3.0", None):
                cls = fv.VALIDATORS.get(ver or fv.DEFAULT_VALIDATOR_SPECIFICATION_VERSION)
                for wae in (False, True):
                    kw = dict({"version": ver} if ver else {}, **({"warnings_as_errors": True} if wae else {}))
                    n += 1
                    if cls is None:
                        try:
                            r = fcsql.validate(text, **kw)
                        except ValueError:
                            continue
                        raise Violation(f"{text!r}: version {ver!r} is not registered, gives {r!r}")
                    if root is None:
                        want = base
                    else:
                        v = cls(query=text, raise_at_first_violation=False, warnings_as_errors=wae)
                        v.validate(root)
                        want = [key(d) for d in v.errors] + ([key(d) for d in v.warnings] if wae else [])
                    got = fcsql.validate(text, return_errors=True, **kw)
                    have = [key(d)[: len(w)] for d, w in zip(got, want)] if len(got) == len(want) else [key(d) for d in got]
                    require(sorted(map(repr, have)) == sorted(map(repr, want)), "%r with %r registered (%r): validate() lists\n  %r\nits parts report\n  %r", text, {k: c.__name__ for k, c in reg.items()}, kw, got, want)
                    ans = fcsql.validate(text, **kw)
                    require(ans is (not want), "%r with %r registered (%r): answer %r, errors %r", text, {k: c.__name__ for k, c in reg.items()}, kw, ans, want)
    finally:
        fv.VALIDATORS.clear()
        fv.VALIDATORS.update(saved)
    return {"obs": (text, n), "traces": n, "trans": n}


def c21_text(text):
    return {"obs": (text, judge_one_call(text)), "traces": 14, "trans": 14}


def c21_shape(item):
    shape, full = item
    obs, n = set(), 0
    for t in texts_of(shape, full):
        obs.add(judge_one_call(t))
        n += 14
    return {"obs": (shape, tuple(sorted(obs))), "traces": n, "trans": n}


def c21_prefix(prefix):
    st = M.PDA.start
    for t in prefix:
        st = M.PDA.step(st, t)
    obs = set()
    ws = {prefix, prefix + tuple(M.PDA.completion(st))} | {prefix + (t,) for t in M.TOKENS}
    for w in sorted(ws):
        obs.add(judge_one_call(M.text_of(w)))
    return {"obs": (prefix, tuple(sorted(obs))), "traces": 14 * len(ws), "trans": len(ws)}


def C21(ctx):
    from mc.checks_lang import static_texts

    nq, ne = ctx.pick((4, 5), (5, 7))
    full = ctx.pick(2, 3)
    ctx.run("shapes x issue vectors x settings", c21_shape, [(s, full if s[1] <= 2 or ctx.thorough else 1) for s in shapes(nq, ne)], f"query words <= {nq}, expression words <= {ne}")
    L = ctx.pick(3, 4)
    ctx.run("viable prefixes x next word", c21_prefix, [p for p, _ in M.prefixes(L)], f"prefix length <= {L}")
    stat = static_texts(False)
    ctx.run("static errors", c21_text, stat if ctx.thorough else stat[::2], "bounds, flags, code points")
    ctx.run("base queries", c21_text, S.BASE + ["\n%\n" + b for b in S.BASE], "one per construct")
    ctx.run("features together", c21_text, S.features(ctx.pick(2, 2)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 2))
    ctx.run("features together, with a mistake", c21_text, S.feature_mistakes(ctx.pick(0, 1)), "a word left out, doubled, a wrong piece in between; up to %d of 12 features away from three base queries" % ctx.pick(0, 1))
    ctx.run("many mistakes", c21_text, S.many_mistakes(S.sizes(130) + S.big_sizes(ctx.pick(129, 1025))), "one mistake over and over: up to 40 times, around powers of two and round numbers")
    ctx.run("long conditions", c21_text, S.long_conditions(S.sizes(ctx.pick(40, 130)) + S.big_sizes(ctx.pick(1025, 5001))), "conditions long in one way: up to 40 characters, around powers of two and round numbers")
    lay = [lead + b + tail for b in S.BASE + [f"[{c}]" for c in CONDS + EXTRA] for lead in ("", " ", "\n\n", "\u2003\t") for tail in ("", "  ", "\r\n") if lead or tail]
    ctx.run("space around queries", c21_text, list(dict.fromkeys(lay)), "3 kinds before x 2 kinds after")
    ctx.run("settings spelled otherwise", c21_spelled, S.BASE + HQ + [f"[{c}]" for c in CONDS + EXTRA] + ["", "%", '"a"{2,1}'], "4 true and false values for each setting")
    ctx.run("unknown versions", c21_versions, S.BASE, f"{len(VERSIONS)} versions x 4 settings")
    ctx.run("registered validators", c21_registered, S.BASE + HQ + ["[]", "([])", "[foo = 'a'] []"], "4 registries x 4 versions x 2 settings")
    ctx.run("extra conditions", c21_text, [f"[{a}] | [{b} & !{a}]" for a in EXTRA + CONDS for b in EXTRA + CONDS], "all pairs")
    ctx.run("sizes", c21_dim, S.dimension_items(cap=ctx.pick(30, 130)), "every dimension up to its limit")
    ctx.run("big sizes", c21_dim, S.big_items(ctx.pick(257, 1025), ctx.pick(20001, 70001)) + S.big_items(ctx.pick(1025, 5001), 0, ["sequence", "segments", "wildcards"]), "number of elements, lengths of words and gaps, around powers of two and round numbers")


def c21_dim(item):
    q = S.dimension_query(item)
    for t in (q, q + " )"):
        judge_one_call(t)
    return {"obs": item, "traces": 28}


# ---------------------------------------------------------------- C25
class Boom(Exception):
    pass


class Tracking(FCSQLValidator):
    """records the offered parent while a node is handled; may blow up or prune at a given node"""

    fuse = None
    prune = None
    meanwhile = None

    def note(self, node, when):
        if self.meanwhile is not None:
            self.meanwhile()
        self.seen.append((node, self.parent_node, when))

    def validation_error(self, node, message):
        self.note(node, "error")
        return super().validation_error(node, message)

    def validation_warning(self, node, message):
        self.note(node, "warning")
        return super().validation_warning(node, message)


class Plain(Validator):
    fuse = None
    prune = None
    meanwhile = None

    def note(self, node, when):
        if self.meanwhile is not None:
            self.meanwhile()
        self.seen.append((node, self.parent_node, when))


def _mk():
    for cls in (Tracking, Plain):
        base = cls.__mro__[1]
        for h in HANDLERS:

            def visit(self, node, h=h, base=base):
                self.note(node, "enter")
                if self.fuse is not None and self.fuse is node:
                    raise Boom(h)
                r = None
                if self.prune is None or self.prune is not node:
                    r = getattr(base, "visit_" + h)(self, node)
                self.note(node, "leave")
                if self.fuse is not None and self.fuse == ("leave", id(node)):
                    raise Boom(h)
                return r

            setattr(cls, "visit_" + h, visit)


_mk()


def parents_ok(v, root, where, prune=None, complete=True):
    up = {id(root): None}
    for n in impl.nodes(root):
        for c in n.children:
            up[id(c)] = n
    for node, parent, when in v.seen:
        require(id(node) in up, "%s: a foreign node %s is handled", where, node)
        want = up[id(node)]
        require(parent is want, "%s: on %s of %s the offered parent is %s, expected %s", where, when, node, parent, want)
    if complete:
        seen = [id(n) for n, _, w in v.seen if w == "enter"]
        exp = []

        def go(n):
            exp.append(id(n))
            if n is not prune:
                for c in n.children:
                    go(c)

        go(root)
        require(seen == exp, "%s: handlers were called for %d nodes, the tree has %d (or in another order)", where, len(seen), len(exp))


def c25_parents(text):
    """every node: as a plain walk, as the place of an exception, as a pruned place; then the validator is used again"""
    root = QueryParser(enableSourceLocations=True).parse(text)
    other = QueryParser(enableSourceLocations=True).parse('("a" | [foo="b"])')
    all_nodes = list(impl.nodes(root))
    n = 0
    for mk in (lambda: Tracking(raise_at_first_violation=False), lambda: Plain(raise_at_first_violation=False)):
        v = mk()
        fresh = None
        for use in range(2):
            v.seen = []
            v.validate(root, query=text)
            parents_ok(v, root, repr(text))
            fresh = fresh or [(id(a), w) for a, _, w in v.seen]
            require(fresh == [(id(a), w) for a, _, w in v.seen], "%r: the second validation differs", text)
            n += 1
        for node in all_nodes:
            v = mk()
            v.prune, v.seen = node, []
            v.validate(root, query=text)
            parents_ok(v, root, f"{text!r} with children of {node} skipped", prune=node)
            for fuse in (node, ("leave", id(node))):
                v = mk()
                v.fuse, v.seen = fuse, []
                try:
                    v.validate(root, query=text)
                    raise Violation(f"{text!r}: {node} was never handled")
                except Boom:
                    pass
                parents_ok(v, root, f"{text!r} with an exception at {node}", complete=False)
                for again in (root, other, root):
                    v.fuse, v.seen = None, []
                    v.validate(again, query=text)
                    parents_ok(v, again, f"{text!r} after an exception at {node}")
                    n += 1
    return {"obs": text, "trans": n, "traces": n}


def c25_nested(item):
    """at every node, before and after it: another validator validates, another parser parses, another visitor visits"""
    text, other = item
    kw = dict(raise_at_first_violation=False)
    n = 0
    root = QueryParser(enableSourceLocations=True).parse(text)
    tree = QueryParser(enableSourceLocations=True).parse(other)
    for cls in (Tracking, Plain):
        alone = cls(**kw)
        alone.seen = []
        res = alone.validate(root, query=text)
        quiet = cls(**kw)
        quiet.seen = []
        ores = quiet.validate(tree, query=other)

        def meanwhile(t, q, r, ref, mk):
            v = mk()
            v.seen = []
            require(v.validate(t, query=q) is r, "%r: validating %r from inside a handler gives another result", text, q)
            if ref is not None:
                require(vstate(v) == vstate(ref), "%r: validating %r from inside a handler reports %r", text, q, vstate(v))

        for what in (
            lambda: meanwhile(tree, other, ores, quiet, lambda: cls(**kw)),
            lambda: meanwhile(root, text, res, alone, lambda: cls(**kw)),
            lambda: QueryParser(enableSourceLocations=True).parse(other),
            lambda: impl.accepts(other + " ]"),
            lambda: fcsql.validate(other, return_errors=True, warnings_as_errors=True),
            lambda: impl.fp.QueryVisitor().visit(root),
        ):
            v = cls(**kw)
            v.meanwhile = what
            for _ in range(2):
                v.seen = []
                require(v.validate(root, query=text) is res, "%r: another result when something else goes on inside the handlers", text)
                require(vstate(v) == vstate(alone), "%r: other issues when something else goes on inside the handlers\n  %r\nalone\n  %r", text, vstate(v), vstate(alone))
                parents_ok(v, root, f"{text!r} while {other!r} is used inside the handlers")
                n += 1
    return {"obs": item, "traces": n, "trans": n}


DEEP = 100


def c25_hand(item):
    """very wide and very deep trees: the offered parent everywhere, twice with one validator, and after an exception far inside"""
    from mc import checks_api as A

    how, c, n = item
    cond = lambda i: Expression(None, ("text", "foo", "word", "x-y")[i % 4], impl.fp.Operator.EQUALS, "v", None)  # noqa: E731
    if how == "wide":
        root = (impl.fp.QuerySequence, impl.fp.QueryDisjunction, impl.fp.ExpressionAnd, impl.fp.ExpressionOr)[c]([cond(i) for i in range(n)])
    else:
        root = A.chain(c, n)
    other = impl.fp.QueryGroup(cond(1), 1, 1)
    k = 0
    for v in (Tracking(raise_at_first_violation=False), Plain(raise_at_first_violation=False)):
        for t in (root, other, root):
            v.seen = []
            v.validate(t)
            parents_ok(v, t, f"{item}")
            k += 1
        flat = list(impl.nodes(root))
        for x in (flat[-1], flat[len(flat) // 2]):
            v.seen, v.fuse = [], x
            try:
                v.validate(root)
                raise Violation(f"{item}: {x} was never handled")
            except Boom:
                pass
            parents_ok(v, root, f"{item} with an exception", complete=False)
            for t in (root, other):
                v.seen, v.fuse = [], None
                v.validate(t)
                parents_ok(v, t, f"{item} after an exception")
                k += 1
    return {"obs": item, "traces": k, "trans": k}


HQ = [
    '"a"',
    "[foo='a']",
    "[word='a']",
    '("x" [x-y="a" | foo="b"])+',
    "[pos='foo'] [bar='x' & !baz='y'] within s",
    '[] "b" | "c"',
    "[q:text='a' & (q:foo='b')]",
]


def vstate(v):
    return [key(d) for d in v.errors], [key(d) for d in v.warnings]


def voutcome(v, op, i, roots, explicit):
    kw = {"query": HQ[i]} if explicit else {}
    try:
        r = v.is_valid(roots[i], **kw) if op == "is" else v.validate(roots[i], **kw)
        return ("ret", r, *vstate(v))
    except SpecificationValidationError as ex:
        require(any(ex.node is n for n in impl.nodes(roots[i])), "the exception names a foreign node %s", ex.node)
        return ("raise", str(ex), ex.query_fragment, *vstate(v))
    except Boom:
        return ("boom", *vstate(v))


CFG = [
    dict(raise_at_first_violation=r, warnings_as_errors=w, allowed_layer_identifiers=i, allowed_layer_qualifiers=q)
    for r in (True, False)
    for w in (True, False)
    for i, q in ((None, None), (["text", "foo"], [("text", ["p"])]))
]


class Fragile(FCSQLValidator):
    """a validator whose own handler fails on wildcards"""

    def visit_ExpressionWildcard(self, node):
        raise Boom()


class FragileLate(FCSQLValidator):
    def visit_QuerySegment(self, node):
        r = super().visit_QuerySegment(node)
        if node.get_expression().child_count == 0 and type(node.get_expression()).__name__ == "ExpressionWildcard":
            raise Boom()
        return r


CLASSES = [FCSQLValidator, Fragile, FragileLate]


def c25_history(item):
    cfg, cls, explicit, ops = item
    roots = [QueryParser(enableSourceLocations=True).parse(q) for q in HQ]
    shared = CLASSES[cls](**CFG[cfg])
    obs = []
    kept = []
    for k, (op, i) in enumerate(ops):
        fresh = voutcome(CLASSES[cls](**CFG[cfg]), op, i, roots, explicit)
        got = voutcome(shared, op, i, roots, explicit)
        require(got == fresh, "history %r with %r (%s): step %d gives\n  %r\na new validator gives\n  %r", ops, CFG[cfg], CLASSES[cls].__name__, k, got, fresh)
        for lst, was in kept:
            require([key(d) for d in lst] == was, "history %r: a list handed out before step %d changed", ops, k)
        kept += [(shared.errors, [key(d) for d in shared.errors]), (shared.warnings, [key(d) for d in shared.warnings])]
        obs.append(got)
    return {"obs": (item, str(obs)), "trans": len(ops) * 2, "traces": len(ops) * 2}


def c25_reconf(item):
    """the settings that hold are the ones a validator has when it validates"""
    a, b, h = item
    roots = [QueryParser(enableSourceLocations=True).parse(q) for q in HQ]
    v = FCSQLValidator(**CFG[a])
    obs = []
    for (op, i), cfg in zip(h, (a, b, a)):
        for k, x in CFG[cfg].items():
            setattr(v, k, x)
        got, want = voutcome(v, op, i, roots, True), voutcome(FCSQLValidator(**CFG[cfg]), op, i, roots, True)
        require(got == want, "a validator set from %r to %r gives\n  %r\na new one\n  %r", CFG[a], CFG[cfg], got, want)
        obs.append(got)
    return {"obs": (item, str(obs)), "traces": 6, "trans": 6}


def c25_abort(item):
    """a validation cut off at any point leaves nothing behind"""
    from mc.checks_hist import cut_off

    cfg, i, part, parts = item
    roots = [QueryParser(enableSourceLocations=True).parse(q) for q in HQ]
    want = [voutcome(FCSQLValidator(**CFG[cfg]), "validate", j, roots, True) for j in range(len(HQ))]

    def call(v):
        try:
            v.validate(roots[i], query=HQ[i])
        except SpecificationValidationError:
            pass

    total, _ = cut_off(lambda: call(FCSQLValidator(**CFG[cfg])), -1)
    n = 0
    for k in range(part, total, parts):
        v = FCSQLValidator(**CFG[cfg])
        cut_off(lambda: call(v), k)
        for j in (i, 0, 3, i):
            got = voutcome(v, "validate", j, roots, True)
            require(got == want[j], "%r with %r cut off at point %d of %d, then %r gives\n  %r\na new validator gives\n  %r", HQ[i], CFG[cfg], k, total, HQ[j], got, want[j])
            n += 1
        t = Tracking(**dict(CFG[cfg], raise_at_first_violation=False))
        t.seen = []
        cut_off(lambda: call(t), k)
        t.seen = []
        t.validate(roots[i], query=HQ[i])
        parents_ok(t, roots[i], f"{HQ[i]!r} after it was cut off at point {k}")
    return {"obs": (item, total), "trans": n, "traces": n}


def c25_fresh_trees(item):
    """every validation gets a tree of its own, dropped afterwards; and a tree changed between two validations"""
    from mc import checks_api as A

    cfg, a, b = item
    v = FCSQLValidator(**CFG[cfg])
    new = lambda t: QueryParser(enableSourceLocations=True).parse(t)  # noqa: E731
    n = 0
    for t in (a, b) * 12:
        root = new(t)
        got = voutcome(v, "validate", 0, [root], False)
        want = voutcome(FCSQLValidator(**CFG[cfg]), "validate", 0, [root], False)
        require(got == want, "%r and %r in turn, each time a new tree, with %r: %r gives\n  %r\na new validator gives\n  %r", a, b, CFG[cfg], t, got, want)
        del root
        n += 1
    for i in range(len(list(impl.nodes(new(a))))):
        for what, value in A.changes(list(impl.nodes(new(a)))[i]):
            root = new(a)
            voutcome(v, "validate", 0, [root], False)
            A.apply(list(impl.nodes(root))[i], what, value)
            got = voutcome(v, "validate", 0, [root], False)
            want = voutcome(FCSQLValidator(**CFG[cfg]), "validate", 0, [root], False)
            require(got == want, "%r validated with %r, then %s of node %d set to %r: gives\n  %r\na new validator gives\n  %r", a, CFG[cfg], what, i, value, got, want)
            n += 1
    return {"obs": (item, n), "trans": n, "traces": n}


SAME_SHAPE = ["[foo='a']", "[text='a']", "[word='a']", "[pos='foo']", "[pos='NOUN']", "[q:text='a']", '"a"', "[bar='a']"]


def c25_long(item):
    """the same few validations many times over"""
    cfg, cls, ops, times = item
    roots = [QueryParser(enableSourceLocations=True).parse(q) for q in HQ]
    v = CLASSES[cls](**CFG[cfg])
    want = [voutcome(CLASSES[cls](**CFG[cfg]), op, i, roots, True) for op, i in ops]
    for r in range(times):
        for (op, i), w in zip(ops, want):
            got = voutcome(v, op, i, roots, True)
            require(got == w, "round %d of %r with %r: %r, a new validator gives %r", r, ops, CFG[cfg], got, w)
    return {"obs": item, "trans": times * len(ops), "traces": times * len(ops)}


def bare_trees():
    """hand-built trees, parts of trees, trees without children"""
    r = QueryParser(enableSourceLocations=True).parse("[foo='a' | word = 'b'] ([!(bar='c')])+ within s")
    parts = list(impl.nodes(r))
    bad, odd, fine = (Expression(None, n, Operator.EQUALS, "x", None) for n in ("foo", "word", "text"))
    return [r, bad, odd, fine, impl.fp.ExpressionWildcard(), impl.fp.SimpleWithin(impl.fp.SimpleWithinScope.TEXT), impl.fp.ExpressionNot(Expression(None, "x-y", Operator.EQUALS, "x", None)),
            impl.fp.QuerySequence([]), next(x for x in parts if type(x).__name__ == "QueryGroup"), next(x for x in parts if type(x).__name__ == "SimpleWithin"), conds(r)[1]]


def c25_bare(item):
    """histories over trees of every size, single nodes included"""
    cfg, cls, ops = item
    roots = bare_trees()
    shared = CLASSES[cls](**CFG[cfg])
    obs = []
    for k, (op, i) in enumerate(ops):
        fresh = voutcome(CLASSES[cls](**CFG[cfg]), op, i, roots, False)
        got = voutcome(shared, op, i, roots, False)
        require(got == fresh, "history %r over hand-built trees with %r: step %d (%s) gives\n  %r\na new validator gives\n  %r", ops, CFG[cfg], k, roots[i], got, fresh)
        obs.append(got)
    return {"obs": (item, str(obs)), "trans": len(ops) * 2, "traces": len(ops) * 2}


def C25(ctx):
    nq, ne = ctx.pick((4, 6), (5, 7))
    ctx.run("offered parent at every node", c25_parents, [S.layout(list(w), "spaced") for w in S.small_queries(nq, ne)] + S.VALID, f"query words <= {nq}, expression words <= {ne}; exception or pruning at every node")
    d = ctx.pick(3, 4)
    ops = [("is" if i % 3 == 2 else "validate", i) for i in range(len(HQ))]
    ops2 = [("validate", 0), ("validate", 3), ("is", 4), ("validate", 5)]
    items = [(c, k, e, h) for c in range(len(CFG)) for k in range(len(CLASSES)) for e in (True, False) for h in itertools.product(ops if k == 0 or ctx.thorough else ops2 + [("validate", 2)], repeat=d)]
    ctx.run("work inside handlers", c25_nested, [(a, b) for a in S.VALID + HQ for b in ("(\"a\" | [foo='b'])", "[word='a'] [] within s", '"a"')], "other validators, parsers, visitors used at every node")
    ctx.run("histories of one validator", c25_history, items, f"depth {d} over {len(HQ)} queries x {len(CFG)} settings x {len(CLASSES)} classes, query given each time or never")
    bops = [("is" if i % 4 == 3 else "validate", i) for i in range(len(bare_trees()))]
    ctx.run("single nodes and parts of trees", c25_bare, [(c, k, h) for c in range(len(CFG)) for k in ctx.pick((0,), range(len(CLASSES))) for h in itertools.product(bops, repeat=ctx.pick(3, 4) if k == 0 else 3)], f"depth {ctx.pick(3, 4)} over {len(bops)} trees")
    ctx.run("features together", c25_parents, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    ctx.run("settings changed between validations", c25_reconf, [(a, b, h) for a in range(len(CFG)) for b in range(len(CFG)) for h in itertools.product(ctx.pick(ops2, ops), repeat=3)], "pairs of settings x 3 validations")
    ctx.run("trees dropped and trees changed between validations", c25_fresh_trees, [(c, a, b) for c in range(len(CFG)) for a in SAME_SHAPE for b in SAME_SHAPE] + [(c, a, b) for c in range(len(CFG)) for a in HQ for b in HQ], "pairs of queries, a new tree each time; every change of every node")
    ctx.run("wide and deep trees built by hand", c25_hand, [("wide", c, n) for c in range(4) for n in S.sizes(60) + S.big_sizes(ctx.pick(5001, 70001))] + [("deep", c, n) for c in range(4) for n in range(1, DEEP + 1)], f"children around powers of two and round numbers; every depth up to {DEEP}")
    ctx.run("validations cut off at every instruction", c25_abort, [(c, i, k, 4) for c in range(len(CFG)) for i in range(len(HQ)) for k in range(4)], "an exception at every instruction of the package that can touch more than its own frame", chunk=1)
    ctx.run("long histories", c25_long, [(c, k, h, ctx.pick(40, 400)) for c in range(len(CFG)) for k in range(len(CLASSES)) for h in itertools.product(ops2, repeat=2)], "pairs repeated %d times" % ctx.pick(40, 400))
    ctx.assumptions.append("the query text of a validator persists between calls that give none (documented attribute), so histories give it always or never")
