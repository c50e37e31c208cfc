"""Observation of the real code in the vocabulary of the model."""
from mc import boot  # noqa: F401
import fcsql
from fcsql import parser as fp
from fcsql.parser import QueryParser, QueryParserException

from mc.core import Violation, require
from mc.model import N

FLAGS = {
    fp.RegexFlag.CASE_INSENSITIVE: "ci",
    fp.RegexFlag.CASE_SENSITIVE: "cs",
    fp.RegexFlag.LITERAL_MATCHING: "lit",
    fp.RegexFlag.IGNORE_DIACRITICS: "dia",
}
OPS = {fp.Operator.EQUALS: "Eq", fp.Operator.NOT_EQUALS: "Ne"}
OPS_INV = {v: k for k, v in OPS.items()}
SCOPE = {
    fp.SimpleWithinScope.SENTENCE: "Sentence",
    fp.SimpleWithinScope.UTTERANCE: "Utterance",
    fp.SimpleWithinScope.PARAGRAPH: "Paragraph",
    fp.SimpleWithinScope.TURN: "Turn",
    fp.SimpleWithinScope.TEXT: "Text",
    fp.SimpleWithinScope.SESSION: "Session",
}
KINDS = [
    (fp.QuerySegment, "segment"),
    (fp.QueryGroup, "group"),
    (fp.QuerySequence, "sequence"),
    (fp.QueryDisjunction, "disjunction"),
    (fp.QueryWithWithin, "within"),
    (fp.SimpleWithin, "scope"),
    (fp.Expression, "cond"),
    (fp.ExpressionWildcard, "wildcard"),
    (fp.ExpressionGroup, "exgroup"),
    (fp.ExpressionNot, "not"),
    (fp.ExpressionAnd, "and"),
    (fp.ExpressionOr, "or"),
]
CLASS = {k: c for c, k in KINDS}


def public(node):
    """the attributes a caller sees"""
    out = {k: getattr(node, k) for c in type(node).__mro__ for k in getattr(c, "__slots__", ()) if k[:1] != "_" and hasattr(node, k)}
    out.update((k, v) for k, v in getattr(node, "__dict__", {}).items() if k[:1] != "_")
    for k in ("node_type", "parent", "children", "location", "qualifier", "identifier", "operator", "regex", "regex_flags", "min_occurs", "max_occurs", "scope"):
        if k not in out and hasattr(node, k):
            out[k] = getattr(node, k)
    return out


def kind(node):
    for c, k in KINDS:
        if isinstance(node, c):
            return k
    raise Violation(f"unknown node class {type(node)}")


def attrs(node, k):
    if k in ("segment", "group"):
        return (node.min_occurs, node.max_occurs)
    if k == "scope":
        return (SCOPE.get(node.scope, repr(node.scope)),)
    if k == "cond":
        fl = node.regex_flags
        require(fl is None or len(fl) > 0, "empty flag set instead of none")
        return (
            node.qualifier,
            node.identifier,
            OPS.get(node.operator, repr(node.operator)),
            node.regex,
            tuple(sorted(FLAGS.get(f, repr(f)) for f in fl or ())),
        )
    return ()


def span(node):
    loc = node.location
    return None if loc is None else (loc.start, loc.stop)


def tree(node, spans=True, collapse=True):
    """N tree of a real query tree; one-element sequences carry no meaning and are collapsed."""
    k = kind(node)
    ch = tuple(tree(c, spans, collapse) for c in node.children)
    if collapse and k == "sequence" and len(ch) == 1:
        return ch[0]
    return N(k, attrs(node, k), ch, span(node) if spans else None)


def nodes(node):
    yield node
    for c in node.children:
        yield from nodes(c)


def detail(e):
    p = e.position
    if p is not None and not isinstance(p, int):
        p = (p.start, p.stop)
    return (e.message, e.type, p, e.fragment)


def outcome(q, parser=None, spans=True, **kw):
    """('ok', tree) or ('err', message, errors) of the high-level parser; any other exception escapes"""
    p = parser or QueryParser(enableSourceLocations=spans, **kw)
    try:
        node = p.parse(q)
    except QueryParserException as ex:
        return ("err", str(ex), tuple(detail(e) for e in p.errors))
    return ("ok", tree(node, spans))


def accepts(q):
    try:
        fcsql.parse(q)
    except QueryParserException:
        return False
    return True


def fmt(t, depth=0):
    """compact printing of an N tree"""
    a = ",".join(map(repr, t.attrs))
    s = f"{t.kind}{'<' + a + '>' if a else ''}{'@%s:%s' % t.span if t.span else ''}"
    return s + ("(" + " ".join(fmt(c) for c in t.children) + ")" if t.children else "")


def same(got, want, q, what="tree"):
    if got != want:
        raise Violation(f"{what} differs for {q!r}\n  expected {fmt(want)}\n  observed {fmt(got)}")
