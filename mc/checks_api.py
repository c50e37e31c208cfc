"""C15 C16 C17 C28 C29 C30: trees as objects"""
import copy
import functools
import itertools
import logging
import re
import types

from mc import boot  # noqa: F401
import fcsql
from fcsql import parser as fp
from fcsql import validation as fv
from fcsql.parser import (
    Expression, ExpressionAnd, ExpressionGroup, ExpressionNot, ExpressionOr, ExpressionWildcard, Operator, QueryDisjunction, QueryGroup,
    QueryNode, QueryNodeType, QueryParser, QueryParserException, QuerySegment, QuerySequence, QueryVisitor, QueryVisitorAdapter,
    QueryWithWithin, RegexFlag, SimpleWithin, SimpleWithinScope,
)

from mc import impl, model as M, spaces as S
from mc.core import Violation, require

KIND_CLASSES = [c for c, _ in impl.KINDS]


class SpecialCondition(Expression):
    """a caller's own kind of condition"""


class OtherNode(QueryNode):
    """a caller's own kind of node"""


# ---------------------------------------------------------------- C15
def integrity(root, what):
    seen = set()
    require(root.parent is None, "%s: the root has a parent", what)
    n = 0
    todo = [root]
    while todo:
        x = todo.pop()
        require(id(x) not in seen, "%s: a %s node occurs twice", what, type(x).__name__)
        seen.add(id(x))
        n += 1
        require(x.child_count == len(x.children), "%s: child_count %r, %d children", what, x.child_count, len(x.children))
        for c in x.children:
            require(isinstance(c, QueryNode), "%s: child %r", what, c)
            require(c.parent is x, "%s: a child %s of %s names %s as its parent", what, type(c).__name__, type(x).__name__, type(c.parent).__name__)
            todo.append(c)
    return n


def access(node, classes, what, lo=-3, hi=3):
    """every index, with and without class filter"""
    ch = list(node.children)
    n = 0
    for clazz in classes:
        sel = ch if clazz is None else [c for c in ch if isinstance(c, clazz)]
        for i in list(range(lo, 0)) + list(range(0, len(ch) + hi)):
            want = sel[i] if 0 <= i < len(sel) else None
            got = node.get_child(i, clazz) if clazz is not None else node.get_child(i)
            n += 1
            require(got is want, "%s: get_child(%d, %s) of %d children gives %s, expected %s", what, i, getattr(clazz, "__name__", None), len(ch), got, want)
        f = node.get_first_child(clazz) if clazz else node.get_first_child()
        la = node.get_last_child(clazz) if clazz else node.get_last_child()
        require(f is (sel[0] if sel else None), "%s: get_first_child(%s) gives %s", what, getattr(clazz, "__name__", None), f)
        require(la is (sel[-1] if sel else None), "%s: get_last_child(%s) gives %s", what, getattr(clazz, "__name__", None), la)
        n += 2
    return n


def named_access(x, what):
    k = impl.kind(x)
    ch = x.children
    if k == "segment":
        require(x.get_expression() is ch[0] and len(ch) == 1, "%s: get_expression()", what)
    elif k == "group":
        require(x.get_content() is ch[0] and len(ch) == 1, "%s: get_content()", what)
    elif k == "within":
        require(x.get_query() is ch[0] and x.get_within() is (ch[1] if len(ch) > 1 else None), "%s: get_query()/get_within()", what)
    elif k in ("and", "or"):
        require(list(x.operands) == list(ch), "%s: operands", what)
        require(all(a is b for a, b in zip(x.operands, ch)), "%s: operands", what)
    elif k in ("cond", "scope"):
        require(not ch, "%s: a %s has children", what, k)


def c15_text(text):
    root = QueryParser(enableSourceLocations=True).parse(text)
    n = integrity(root, repr(text))
    for x in impl.nodes(root):
        n += access(x, [None, QueryNode] + sorted({type(c) for c in x.children}, key=lambda c: c.__name__) + [QueryGroup], repr(text))
        named_access(x, repr(text))
    return {"obs": (n, len(text)), "traces": n, "trans": n}


def c15_keep(text):
    """whoever keeps one node keeps what is above it"""
    import gc

    n = 0
    for i, _ in enumerate(impl.nodes(QueryParser().parse(text))):
        root = QueryParser(enableSourceLocations=bool(i % 2)).parse(text)
        want = impl.tree(root, False, False)
        x = list(impl.nodes(root))[i]
        up = []
        y = x
        while y is not root:
            y = y.parent
            up.append(type(y).__name__)
        del root, y, _
        gc.collect()
        y, got = x, []
        while y.parent is not None:
            y = y.parent
            got.append(type(y).__name__)
        require(got == up, "%r: above node %d there were %r, %r once only that node is held", text, i, up, got)
        require(impl.tree(y, False, False) == want, "%r: the tree above node %d changed once only that node is held", text, i)
        _ = None
        n += 1
    return {"obs": (text, n), "traces": n}


def c15_words(w):
    return c15_text(" ".join(w))


def c15_dim(item):
    return c15_text(S.dimension_query(item))


def leaf(k):
    if k == 0:
        return Expression(None, "a", Operator.EQUALS, "x", None)
    if k == 1:
        return ExpressionWildcard()
    if k == 2:
        return SimpleWithin(SimpleWithinScope.TEXT)
    if k == 3:
        return SpecialCondition("q", "b", Operator.NOT_EQUALS, "y", {RegexFlag.LITERAL_MATCHING})
    if k == 4:
        return OtherNode(QueryNodeType.EXPRESSION)
    return QuerySegment(leaf(0), 1, 1)


def c15_many(item):
    """hand-built node of each container class over every choice of child kinds"""
    cname, kinds = item
    ch = [leaf(k) for k in kinds]
    cls = {"QueryNode": None}.get(cname, getattr(fp, cname, None))
    given = list(ch)
    if cname == "QueryNode":
        node = QueryNode(QueryNodeType.QUERY_SEQUENCE, children=given)
    elif cname == "QueryNode+child":
        node = QueryNode(QueryNodeType.QUERY_SEQUENCE, children=given[:-1], child=given[-1] if given else None)
    elif cname == "ExpressionWildcard":
        node = ExpressionWildcard(children=given)
    elif cname == "ExpressionWildcard+child":
        node = ExpressionWildcard(children=given[:-1], child=given[-1] if given else None)
    elif cname in ("QuerySequence", "QueryDisjunction", "ExpressionAnd", "ExpressionOr"):
        node = cls(given)
    elif cname == "QueryWithWithin":
        node = cls(given[0], given[1] if len(given) > 1 else None)
    elif cname in ("QuerySegment", "QueryGroup"):
        node = cls(given[0], 1, 2)
    else:
        node = cls(given[0])
    what = f"{cname} built from {kinds}"
    require(len(node.children) == len(ch) and all(a is b for a, b in zip(node.children, ch)), "%s has children %r", what, node.children)
    integrity(node, what)
    n = access(node, [None, QueryNode, Expression, ExpressionWildcard, SimpleWithin, SpecialCondition, OtherNode, QuerySegment, QueryGroup], what)
    if cname in impl.CLASS.values() or cname in [c.__name__ for c in KIND_CLASSES]:
        named_access(node, what)
    # the caller's list stays the caller's
    given.append(leaf(0))
    require(len(node.children) == len(ch), "%s: children follow later changes of the list it was built from", what)
    return {"obs": (cname, n), "traces": n, "trans": n}


def c15_big(item):
    """parsed trees with very many nodes: integrity, and access around powers of two"""
    root = QueryParser(enableSourceLocations=True).parse(S.dimension_query(item))
    n = integrity(root, repr(item))
    for x in impl.nodes(root):
        ch = list(x.children)
        named_access(x, repr(item))
        for i in sorted({j for j in (0, 1, len(ch) // 2, len(ch) - 1, len(ch), len(ch) + 1) + tuple(S.big_sizes(len(ch))) if j >= 0}):
            want = ch[i] if i < len(ch) else None
            for clazz in (None, QueryNode):
                got = x.get_child(i, clazz) if clazz else x.get_child(i)
                require(got is want, "%s: get_child(%d) of %d children gives %s, expected %s", item, i, len(ch), got, want)
                n += 1
        require(x.get_last_child() is (ch[-1] if ch else None) and x.get_first_child() is (ch[0] if ch else None), "%s: first or last child of %d", item, len(ch))
    return {"obs": item, "traces": n, "trans": n}


def c15_wide(item):
    """many children, the selected kind at every position pattern"""
    n, step = item
    ch = [leaf(0) if i % step == step - 1 else leaf(1) for i in range(n)]
    node = QuerySequence(ch)
    k = access(node, [None, Expression, ExpressionWildcard, QueryNode, SimpleWithin], f"{n} children")
    return {"obs": (n, step), "traces": k, "trans": k}


def containers(ch):
    """every way of putting ready nodes into a new one"""
    yield "sequence", QuerySequence(ch)
    yield "disjunction", QueryDisjunction(ch)
    yield "and", fp.ExpressionAnd(ch)
    yield "or", fp.ExpressionOr(ch)
    yield "node", QueryNode(QueryNodeType.QUERY_SEQUENCE, children=ch)
    yield "node+child", QueryNode(QueryNodeType.QUERY_SEQUENCE, children=ch[:-1], child=ch[-1])
    if len(ch) == 1:
        yield "segment", QuerySegment(ch[0], 1, 1)
        yield "group", QueryGroup(ch[0], 1, 1)
        yield "egroup", fp.ExpressionGroup(ch[0])
        yield "not", fp.ExpressionNot(ch[0])
    if len(ch) <= 2:
        yield "within", fp.QueryWithWithin(ch[0], ch[1] if len(ch) > 1 else None)


def c15_move(item):
    """parts of a parsed tree are used to build new ones, several times over: the newest tree is well formed,
    and so is the part itself"""
    text, start = item
    n = 0
    for x in list(impl.nodes(QueryParser().parse(text))):
        for ch in [list(x.children)] if x.children else []:
            for name, node in itertools.islice(containers(ch), start, None):
                what = f"{text!r}: the children of its {type(x).__name__} put into a {name}"
                require(len(node.children) == len(ch) and all(a is b for a, b in zip(node.children, ch)), "%s: children %r", what, node.children)
                n += integrity(node, what)
    return {"obs": (text, n), "traces": n, "trans": n}


EDITS = ["append 0", "append 1", "append 3", "insert 5", "pop", "shift", "replace 0", "replace 4", "reverse", "clear"]


def c15_change(item):
    """children lists changed by their owner: every access follows"""
    cname, k, edits = item
    node = getattr(fp, cname)([leaf(0), leaf(1), leaf(0)][:k])
    n = 0
    for e in ("",) + edits:
        ch = node.children
        what, _, arg = e.partition(" ")
        if what == "append":
            ch.append(leaf(int(arg)))
        elif what == "insert":
            ch.insert(0, leaf(int(arg)))
        elif what == "pop" and ch:
            ch.pop()
        elif what == "shift" and ch:
            del ch[0]
        elif what == "replace" and ch:
            ch[-1] = leaf(int(arg))
        elif what == "reverse":
            ch.reverse()
        elif what == "clear":
            ch.clear()
        n += access(node, [None, QueryNode, Expression, ExpressionWildcard, OtherNode], f"{cname} of {k} after {edits}", -1, 1)
        require(node.child_count == len(ch), "%s of %d after %s: child_count %r of %d children", cname, k, edits, node.child_count, len(ch))
        if hasattr(node, "operands"):
            require(list(map(id, node.operands)) == list(map(id, ch)), "%s of %d after %s: operands", cname, k, edits)
    return {"obs": item, "trans": n}


def C15(ctx):
    nq, ne = ctx.pick((6, 7), (7, 9))
    ctx.run("parsed trees: integrity and every access", c15_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}")
    ctx.run("constructs", c15_text, S.VALID, "")
    ctx.run("features together", c15_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("only one node held", c15_keep, S.VALID, "every node of every construct, the rest let go")
    ctx.run("sizes", c15_dim, S.dimension_items(["sequence", "alternatives", "or", "and", "query-groups", "wildcards", "sequence-of-groups", "negations"], ctx.pick(41, 130)), "")
    items = []
    k = ctx.pick(3, 4)
    for c in ("QueryNode", "QueryNode+child", "ExpressionWildcard", "ExpressionWildcard+child", "QuerySequence", "QueryDisjunction", "ExpressionAnd", "ExpressionOr"):
        items += [(c, p) for r in range(0, k + 1) for p in itertools.product(range(6), repeat=r)]
    items += [("QueryWithWithin", p) for r in (1, 2) for p in itertools.product(range(6), repeat=r)]
    items += [(c, (i,)) for c in ("QuerySegment", "QueryGroup", "ExpressionGroup", "ExpressionNot") for i in range(6)]
    ctx.run("hand-built nodes x child kinds x index x class filter", c15_many, items, f"<= {k} children of 6 kinds, 9 filters, index -3..n+2")
    ctx.run("parts moved to new trees", c15_move, [(t, k) for t in S.VALID for k in range(6)], "every node's children into every kind of container, one after the other")
    d = ctx.pick(3, 4)
    ctx.run("children lists changed by their owner", c15_change, [(c, k, e) for c in ("QuerySequence", "QueryDisjunction", "ExpressionAnd", "ExpressionOr") for k in range(4) for r in range(1, d + 1) for e in itertools.product(EDITS, repeat=r)], f"<= {d} of {len(EDITS)} edits, every access after each")
    ctx.run("many children", c15_wide, [(n, s) for n in S.sizes(ctx.pick(70, 260)) + S.big_sizes(ctx.pick(1025, 2049)) for s in (1, 2, 3)], "")
    ctx.run("big parsed trees", c15_big, S.big_items(ctx.pick(1025, 5001), 0, S.COUNTS), "number of elements around powers of two and round numbers")


# ---------------------------------------------------------------- C16
CLS = [c.__name__ for c in KIND_CLASSES]


def recorder(names, cont, base=QueryVisitorAdapter):
    """visitor with handlers for `names`; `cont` decides whether they go on to the children"""
    log = []
    ns = {}

    def mk(name):
        def h(self, node):
            log.append((name, node))
            return self.visitChildren(node) if cont(name) else None

        return h

    for n in names:
        ns["visit_" + n] = mk(n)
    return type("Rec", (base,), ns)(), log


def preorder(root, names, cont):
    out = []

    def go(x):
        n = type(x).__name__
        if n in names:
            out.append((n, x))
            if not cont(n):
                return
        for c in x.children:
            go(c)

    go(root)
    return out


def same_log(log, want, what):
    a = [(n, id(x)) for n, x in log]
    b = [(n, id(x)) for n, x in want]
    if a != b:
        raise Violation(f"{what}: handlers called {[(n, str(x)) for n, x in log]}, expected {[(n, str(x)) for n, x in want]}")


def c16_tree(text):
    root = QueryParser().parse(text)
    n = 0
    yes = lambda name: True  # noqa: E731
    no = lambda name: False  # noqa: E731
    for base in (QueryVisitorAdapter, QueryVisitor):
        for start in ("visit", "accept"):
            v, log = recorder(CLS, yes, base)
            (v.visit(root) if start == "visit" else root.accept(v))
            same_log(log, preorder(root, CLS, yes), f"{text!r}, all handlers on {base.__name__}")
            n += 1
        for one in CLS:
            for cont in (yes, no):
                v, log = recorder([one], cont, base)
                v.visit(root)
                same_log(log, preorder(root, [one], cont), f"{text!r}, only visit_{one} on {base.__name__}")
                n += 1
            v, log = recorder([c for c in CLS if c != one], yes, base)
            v.visit(root)
            same_log(log, preorder(root, [c for c in CLS if c != one], yes), f"{text!r}, all but visit_{one} on {base.__name__}")
            stop = lambda name, one=one: name != one  # noqa: E731
            v, log = recorder(CLS, stop, base)
            v.visit(root)
            same_log(log, preorder(root, CLS, stop), f"{text!r}, visit_{one} does not continue")
            n += 2
    n += aggregate(root, text)
    # the same visitor object again, and another tree in between
    v, log = recorder(CLS, yes)
    v.visit(root)
    v.visit(QueryParser().parse('"z"'))
    del log[:]
    v.visit(root)
    same_log(log, preorder(root, CLS, yes), f"{text!r}, visitor used again")
    return {"obs": tuple(x[0] for x in log), "traces": n + 3, "trans": n}


def aggregate(root, text):
    """results: default, aggregation in order, early stop at every point"""

    class Agg(QueryVisitorAdapter):
        limit = 10**9

        def __init__(self):
            self.seen = []

        def defaultResult(self):
            return ()

        def aggregateResult(self, aggregate, nextResult):
            return aggregate + (nextResult,)

        def shouldVisitNextChild(self, node, currentResult):
            return len(self.seen) < self.limit and len(currentResult) < self.width

        def visitChildren(self, node):
            self.seen.append(node)
            return (type(node).__name__, super().visitChildren(node))

    n = 0
    total = sum(1 for _ in impl.nodes(root))
    for width in (10**9, 2, 1, 0):
        for limit in {10**9, *range(0, total + 1)} if width == 10**9 else {10**9}:
            a = Agg()
            a.limit, a.width = limit, width
            seen = []

            def go(x):
                seen.append(x)
                res = ()
                for c in x.children:
                    if not (len(seen) < limit and len(res) < width):
                        break
                    res += (go(c),)
                return (type(x).__name__, res)

            got, want = a.visit(root), go(root)
            require(got == want, "%r: aggregated result %r, expected %r (limit %d, width %d)", text, got, want, limit, width)
            require([id(x) for x in a.seen] == [id(x) for x in seen], "%r: nodes seen differ (limit %d, width %d)", text, limit, width)
            n += 1
    # default aggregation: the last child's result; no children: the default result
    class Last(QueryVisitorAdapter):
        def visit_Expression(self, node):
            return "C:" + node.regex

        def visit_ExpressionWildcard(self, node):
            return "W"

        def visit_SimpleWithin(self, node):
            return "S"

    def last(x):
        k = impl.kind(x)
        if k == "cond":
            return "C:" + x.regex
        if k == "wildcard":
            return "W"
        if k == "scope":
            return "S"
        r = None
        for c in x.children:
            r = last(c)
        return r

    got = Last().visit(root)
    require(got == last(root), "%r: default aggregation gives %r, expected %r", text, got, last(root))
    # nodes that decline their children: always, before there is a result, or once there is one
    for base in (QueryVisitorAdapter, QueryVisitor):
        class Decline(base):
            def visit_Expression(self, node):
                heard.append(node)
                return node.regex

            def shouldVisitNextChild(self, node, currentResult):
                return not (node is at and when(currentResult))

        def decline(x):
            if impl.kind(x) == "cond":
                want_heard.append(x)
                return x.regex
            r = None
            for c in x.children:
                if x is at and when(r):
                    break
                r = decline(c)
            return r

        for at in [x for x in impl.nodes(root) if x.children]:
            for when in (lambda r: True, lambda r: r is None, lambda r: r is not None):
                heard, want_heard = [], []
                got, want = Decline().visit(root), decline(root)
                require(got == want and [id(x) for x in heard] == [id(x) for x in want_heard], "%r: %s declines: result %r, expected %r; conditions seen %r, expected %r", text, at, got, want, heard, want_heard)
                n += 1
    # results that count as false are results all the same, and None as an intermediate result too
    for value in (None, 0, "", False, ()):
        class Odd(QueryVisitor):
            def defaultResult(self):
                return value

            def visit_Expression(self, node):
                return value

            def aggregateResult(self, aggregate, nextResult):
                return [aggregate, nextResult]

        def odd(x):
            r = value
            if impl.kind(x) != "cond":
                for c in x.children:
                    r = [r, odd(c)]
            return r

        got, want = Odd().visit(root), odd(root)
        require(got == want and repr(got) == repr(want), "%r: handlers returning %r, aggregated to %r, expected %r", text, value, got, want)
    return n + 6


def c16_words(w):
    return c16_tree(" ".join(w))


ONE_OF_EACH = '("a"{2} [!(x = "b" & y = "c" | z != "d")] | [])+ "e" within s'


DEEPEST = 120


def chain(c, n):
    """n nodes of one child each"""
    x = leaf(0)
    for k in range(n):
        x = (QueryGroup(x, 1, 1), fp.ExpressionNot(x), fp.ExpressionGroup(x), QuerySegment(x, 1, 1) if k % 2 == 0 else QueryGroup(x, 0, 2))[c]
    return x


def c16_hand(item):
    how, c, n = item
    if how == "wide":
        root = (QuerySequence, QueryDisjunction, fp.ExpressionAnd, fp.ExpressionOr)[c]([leaf(i % 2 * 5 if i % 7 else 1) for i in range(n)])
    else:
        root = chain(c, n)
    yes = lambda name: True  # noqa: E731
    for names in (CLS, ["Expression"], ["ExpressionNot", "QuerySegment", "ExpressionWildcard"]):
        for base in (QueryVisitor, QueryVisitorAdapter):
            v, log = recorder(names, yes, base)
            v.visit(root)
            same_log(log, preorder(root, names, yes), f"{item}, handlers {names} on {base.__name__}")

    class Count(QueryVisitorAdapter):
        def defaultResult(self):
            return 1

        def aggregateResult(self, aggregate, nextResult):
            return aggregate + nextResult

    got, want = Count().visit(root), len(list(impl.nodes(root)))
    require(got == want, "%s: a visitor that counts nodes counts %r of %d", item, got, want)
    return {"obs": item, "traces": 7}


def c16_subset(bits):
    """every subset of handlers, on trees containing every kind"""
    names = [c for i, c in enumerate(CLS) if bits >> i & 1]
    n = 0
    for text in (ONE_OF_EACH, '[a="b" & (c="d" | !e="f")] | ("g" []) "h" within u'):
        root = QueryParser().parse(text)
        for base in (QueryVisitorAdapter, QueryVisitor):
            v, log = recorder(names, lambda name: True, base)
            v.visit(root)
            same_log(log, preorder(root, names, lambda name: True), f"{text!r}, handlers {names} on {base.__name__}")
            n += 1
    return {"obs": bits, "traces": n, "trans": n}


def c16_typename(item):
    """handlers named after the node type value, as documented for QueryVisitor.visit"""
    text, cls_i = item
    root = QueryParser().parse(text)
    cls = KIND_CLASSES[cls_i]
    values = {str(x.node_type) for x in impl.nodes(root) if type(x) is cls}
    for v in values:
        for base in (QueryVisitor, QueryVisitorAdapter):
            vis, log = recorder([v], lambda name: True, base)
            vis.visit(root)
            want = [id(x) for x in impl.nodes(root) if type(x) is cls]
            require([id(x) for _, x in log] == want, "%r: handler visit_%s called for %r", text, v, [str(x) for _, x in log])
    return {"obs": item}


def c16_bases(text):
    """what the default handlers of every shipped visitor hand back"""
    n = 0
    for loc in (False, True):
        root = QueryParser(enableSourceLocations=loc).parse(text)

        def nest(x, found):
            return ("d",) + tuple(nest(c, found) for c in x.children) if x is not found else "found"

        for base, kw in ((QueryVisitor, {}), (QueryVisitorAdapter, {}), (fv.Validator, {}), (fv.FCSQLValidator, {"raise_at_first_violation": False})):
            class Agg(base):
                found = None

                def defaultResult(self):
                    return ("d",)

                def aggregateResult(self, aggregate, nextResult):
                    return aggregate + (nextResult,)

                def visit(self, node):
                    return "found" if node is self.found else super().visit(node)

            class Plain(base):
                pass

            require(Plain(**kw).visit(root) is None, "%r: %s without handlers gives a result", text, base.__name__)
            for found in [None] + list(impl.nodes(root)):
                v = Agg(**kw)
                v.found = found
                got, want = v.visit(root), nest(root, found)
                require(got == want, "%r: default handlers of %s give %r, expected %r", text, base.__name__, got, want)
                n += 1
    return {"obs": (text, n), "traces": n, "trans": n}


def c16_change(text):
    """a visitor used again after the tree was changed sees the tree as it is"""
    n = 0
    for names in (CLS, ["Expression"]):
        count = len(list(impl.nodes(QueryParser().parse(text))))
        for i in range(count):
            for e in range(5):
                root = QueryParser().parse(text)
                x = list(impl.nodes(root))[i]
                v, log = recorder(names, lambda name: True)
                v.visit(root)
                if e == 0:
                    x.children.append(leaf(0))
                elif e == 1:
                    x.children.insert(0, leaf(1))
                elif e == 2 and len(x.children) > 1:
                    del x.children[0]
                elif e == 3:
                    x.children.reverse()
                elif e == 4 and x.children:
                    x.children[-1] = leaf(0)
                del log[:]
                v.visit(root)
                same_log(log, preorder(root, names, lambda name: True), f"{text!r} visited again after change {e} of its node {i}")
                n += 1
    return {"obs": (text, n), "traces": n, "trans": n}


def c16_late(item):
    """handlers that belong to the object, or that are added, replaced and taken away between visits"""
    text, first, second = item
    root = QueryParser().parse(text)
    yes = lambda name: True  # noqa: E731
    n = 0
    for base in (QueryVisitor, QueryVisitorAdapter):
        for how in ("object", "class"):
            cls = type("Late", (base,), {})
            v = cls()
            log = []

            def put(name):
                if how == "object":
                    def h(node):
                        log.append((name, node))
                        return v.visitChildren(node)
                    setattr(v, "visit_" + name, h)
                else:
                    def h(self, node):
                        log.append((name, node))
                        return self.visitChildren(node)
                    setattr(cls, "visit_" + name, h)

            have = set()
            for step, names in enumerate((first, second, first)):
                for name in sorted(have - set(names)):
                    delattr(v if how == "object" else cls, "visit_" + name)
                for name in sorted(set(names) - have):
                    put(name)
                have = set(names)
                del log[:]
                v.visit(root)
                same_log(log, preorder(root, names, yes), f"{text!r}, handlers {names} on the {how}, step {step} of {first}, {second}, {first}, {base.__name__}")
                n += 1
    return {"obs": (item, n), "traces": n, "trans": n}


class Called:
    """an object that can be called and has no name of its own"""

    def __init__(self, f):
        self.f = f

    def __call__(self, node):
        return self.f(node)


def mk_handlers(log, v, go_on):
    """every way to be a handler -> maker(kind name)"""

    def plain(name):
        def h(node):
            log.append((name, node))
            return v.visitChildren(node) if go_on else name
        return h

    return {
        "function": plain,
        "lambda": lambda name: (lambda node, f=plain(name): f(node)),
        "partial": lambda name: functools.partial(lambda f, node: f(node), plain(name)),
        "object": lambda name: Called(plain(name)),
        "bound method": lambda name: Called(plain(name)).__call__,
        "method of another": lambda name: types.MethodType(lambda self, node: self(node), plain(name)),
    }


def c16_kinds(item):
    """handlers that are functions, lambdas, partial applications, callable objects, bound methods; on the object and on the class"""
    text, names = item
    root = QueryParser().parse(text)
    n = 0
    for how in list(mk_handlers([], None, True)):
        for where in ("object", "class", "mixin", "property", "looked up"):
            for base in (QueryVisitor, QueryVisitorAdapter):
                for go_on in (True, False):
                    mixin = type("Handlers", (), {})
                    cls = type("Kinds", (mixin, base) if where == "mixin" else (base,), {})
                    v = cls()
                    log = []
                    mk = mk_handlers(log, v, go_on)[how]
                    made = {"visit_" + name: mk(name) for name in names}
                    if where == "looked up":
                        cls.__getattribute__ = lambda self, name, made=made: made[name] if name in made else object.__getattribute__(self, name)
                    for name, h in made.items():
                        if where == "object":
                            setattr(v, name, h)
                        elif where == "property":
                            setattr(cls, name, property(lambda self, h=h: h))
                        elif where in ("class", "mixin"):
                            setattr(cls if where == "class" else mixin, name, staticmethod(h))
                    for visit in (v.visit, lambda r: r.accept(v)):
                        del log[:]
                        got = visit(root)
                        same_log(log, preorder(root, names, lambda name: go_on), f"{text!r}, each handler a {how} on the {where}, {base.__name__}")
                        if not go_on and type(root).__name__ in names:
                            require(got == type(root).__name__, "%r: a handler that is a %s returns the kind, the visit %r", text, how, got)
                        n += 1
    return {"obs": (item, n), "traces": n, "trans": n}


def c16_nested(item):
    """handlers that visit other trees, the same tree again, or go on with another visitor, before they continue"""
    text, other, how = item
    root = QueryParser().parse(text)
    inner = root if other is None else QueryParser().parse(other)
    n = 0
    yes = lambda name: True  # noqa: E731
    for base in (QueryVisitor, QueryVisitorAdapter):
        for names in (CLS, CLS[::2], CLS[1::2]):
            log, busy, ns = [], [], {}

            def mk(name):
                def h(self, node):
                    log.append((name, node))
                    if not busy:
                        busy.append(1)
                        (self if how != "other visitor" else type(self)()).visit(inner)
                        busy.pop()
                    if how == "by hand":
                        for c in node.children:
                            c.accept(self)
                        return None
                    return self.visitChildren(node)

                return h

            for name in names:
                ns["visit_" + name] = mk(name)
            v = type("Nested", (base,), ns)()
            between = preorder(inner, names, yes)
            want = [x for one in preorder(root, names, yes) for x in [one] + between]
            for _ in range(2):
                del log[:]
                v.visit(root)
                same_log(log, want, f"{text!r}, each of {len(names)} handlers first visits {other!r} ({how}), {base.__name__}")
                n += 1
    return {"obs": (item, n), "traces": n, "trans": n}


LATE = [[], ["Expression"], ["QuerySegment", "SimpleWithin"], CLS, ["ExpressionWildcard", "QueryGroup", "ExpressionAnd"]]


def C16(ctx):
    nq, ne = ctx.pick((5, 6), (6, 8))
    ctx.run("all small trees x handler sets", c16_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}; all, each one, all but one, each one not continuing; aggregation; early stop at every node")
    ctx.run("constructs", c16_tree, S.VALID + [ONE_OF_EACH], "")
    ctx.run("default handlers of every shipped visitor", c16_bases, S.VALID + [ONE_OF_EACH], "4 base classes, results placed at every node")
    ctx.run("visited again after a change", c16_change, S.VALID + [ONE_OF_EACH], "5 changes of every node's children, 2 handler sets")
    ctx.run("handlers added, replaced and taken away", c16_late, [(t, a, b) for t in S.VALID + [ONE_OF_EACH] for a in LATE for b in LATE], "on the visitor object and on its class, 5 x 5 handler sets, 3 visits")
    ctx.run("kinds of handlers", c16_kinds, [(t, a) for t in S.VALID + [ONE_OF_EACH] for a in LATE], "functions, lambdas, partial applications, callable objects, bound methods; on the object, its class, a mixin, as a property, looked up")
    ctx.run("visits inside visits", c16_nested, [(t, o, h) for t in S.VALID + [ONE_OF_EACH] for o in [None, '"a"', '([a="b" & !c="d"] []+)?', ONE_OF_EACH] for h in ("same visitor", "other visitor", "by hand")], "every handler visits another tree, or the same one, before it goes on")
    ctx.run("features together", c16_tree, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    ctx.run("every subset of the 12 handlers", c16_subset, list(range(1 << len(CLS))), "2 trees x 2 base classes")
    ctx.run("handlers named after the node type", c16_typename, [(t, i) for t in S.VALID + [ONE_OF_EACH] for i in range(len(CLS))], "")
    ctx.run("sizes", c16_dim, S.dimension_items(["sequence", "alternatives", "or", "and", "expression-groups", "query-groups", "sequence-of-groups"], ctx.pick(20, 60)), "")
    ctx.run("big parsed trees", c16_dim, S.big_items(ctx.pick(1025, 5001), 0, S.COUNTS), "number of elements around powers of two and round numbers")
    ctx.run("wide and deep trees built by hand", c16_hand, [("wide", c, n) for c in range(4) for n in S.sizes(60) + S.big_sizes(ctx.pick(5001, 70001))] + [("deep", c, n) for c in range(4) for n in range(1, DEEPEST + 1)], f"children around powers of two and round numbers; every depth up to {DEEPEST}")


def c16_dim(item):
    text = S.dimension_query(item)
    root = QueryParser().parse(text)
    v, log = recorder(CLS, lambda n: True)
    v.visit(root)
    same_log(log, preorder(root, CLS, lambda n: True), f"{item}")
    v, log = recorder(["Expression"], lambda n: True)
    v.visit(root)
    same_log(log, preorder(root, ["Expression"], lambda n: True), f"{item}")
    return {"obs": item, "traces": 2}


# ---------------------------------------------------------------- C17
LOC = re.compile(r"@(\d+):(\d+)")


def c17_text(text):
    """printed with and without locations"""
    a = QueryParser(enableSourceLocations=False).parse(text)
    b = QueryParser(enableSourceLocations=True).parse(text)
    sa, sb = str(a), str(b)
    out = []
    pats = [n.regex for n in impl.nodes(a) if isinstance(n, Expression)]
    for root, s in ((a, sa), (b, sb)):
        require(isinstance(s, str) and s == str(root), "%r: printing twice differs", text)
        for n in impl.nodes(root):
            require(isinstance(str(n), str), "%r: printing a node", text)
    if not any("@" in p for p in pats):
        require(not LOC.search(sa), "%r: location shown although disabled: %s", text, sa)
        shown = [(int(x), int(y)) for x, y in LOC.findall(sb)]
        want = sorted(impl.span(n) for n in impl.nodes(b))
        require(sorted(shown) == want, "%r: locations shown %r, nodes have %r: %s", text, shown, want, sb)
    if not any(c in p for p in pats for c in "\"'\\\n\r"):
        out = [(s, impl.fmt(impl.tree(r, True, False))) for r, s in ((a, sa), (b, sb))]
    return {"obs": sb, "traces": 2, "out": out}


def changes(x):
    """every single fact of a node, changed"""
    flip = {Operator.EQUALS: Operator.NOT_EQUALS, Operator.NOT_EQUALS: Operator.EQUALS}
    k = impl.kind(x)
    if k == "cond":
        yield "regex", x.regex + "z"
        yield "identifier", x.identifier + "z"
        yield "qualifier", (x.qualifier or "") + "z"
        yield "qualifier", None
        yield "operator", flip[x.operator]
        yield "regex_flags", {RegexFlag.LITERAL_MATCHING}
        yield "regex_flags", {RegexFlag.CASE_SENSITIVE, RegexFlag.IGNORE_DIACRITICS}
        yield "regex_flags", None
    if k in ("segment", "group"):
        for a in ("min_occurs", "max_occurs"):
            for b in (0, 1, 2, -1):
                yield a, b
    if k == "scope":
        for s in SimpleWithinScope:
            yield "scope", s
    if x.location is not None:
        yield "location", None
        yield "location", fp.SourceLocation(101, 202)
    if k in ("sequence", "disjunction", "and", "or"):
        for a in ("append", "drop", "reverse", "swap"):
            yield a, None


def apply(x, what, value):
    if what == "append":
        x.children.append(leaf(0))
    elif what == "drop":
        del x.children[0]
    elif what == "reverse":
        x.children.reverse()
    elif what == "swap":
        x.children[-1] = leaf(1)
    else:
        setattr(x, what, value)


def c17_change(item):
    """the printed form follows every change of a tree that was printed before"""
    text, loc = item
    parse = QueryParser(enableSourceLocations=loc).parse
    count = len(list(impl.nodes(parse(text))))
    n = 0
    for i in range(count):
        for what, value in list(changes(list(impl.nodes(parse(text)))[i])):
            a, b = parse(text), parse(text)
            na, nb = list(impl.nodes(a)), list(impl.nodes(b))
            before = [str(x) for x in nb]
            apply(na[i], what, value)
            apply(nb[i], what, value)
            got, want = [str(x) for x in impl.nodes(b)], [str(x) for x in impl.nodes(a)]
            require(got == want, "%r printed, then %s of node %d set to %s: prints %r, never printed before it prints %r", text, what, i, value, got[0], want[0])
            if impl.tree(a, loc, False) != impl.tree(parse(text), loc, False):
                require(before[0] != want[0], "%r: prints the same after %s of node %d is set to %s: %s", text, what, i, value, want[0])
            n += 1
    return {"obs": (item, n), "traces": n, "trans": n}


def c17_words(w):
    return c17_text(" ".join(w))


def variants():
    """queries differing in one fact each"""
    out = []
    names = ["a", "text", "b", "a-b", "s", "Eq", "i", "within"]
    for n in names:
        for q in [None] + names[:5]:
            for op in ("=", "!="):
                for p in ("x", "", " ", "Eq", "a", "x ", " x", "a Eq b", ")", "(Wildcard)", ":", "/i", "@1:2", "é", "e\u0301", "\t", "*", "1"):
                    out.append(f'[{q + ":" if q else ""}{n}{op}"{p}"]')
    for f in ["", "/i", "/I", "/l", "/d", "/id", "/Id", "/dI", "/c", "/C"]:
        for r in ["", "*", "+", "?", "{0}", "{1}", "{2}", "{0,}", "{1,}", "{2,}", "{,0}", "{,1}", "{,2}", "{0,1}", "{0,2}", "{1,1}", "{1,2}", "{2,2}", "{2,3}", "{12}", "{1,12}", "{11,2222}", "{21}"]:
            out += [f'"x"{f}{r}', f'("x"{f}){r}', f"[]{r}", f'[a="x"{f}]{r}', f'("x"{f}{r})']
    for n in sorted({m for b in (2, 10) for k in range(3, 67 if b == 2 else 21) for m in (b**k - 1, b**k, b**k + 1)} | {m for m in S.mined().ints if m >= 0}):
        for r in (f"{{{n}}}", f"{{{n},}}", f"{{,{n}}}", f"{{1,{n}}}", f"{{{n},{n + 1}}}"):
            out += [t for t in (f'"x"{r}', f'("x"){r}') if M.status(t)[0] == "ok"]
    for s in M.SCOPES:
        out += [f'"x" within {s}', f'[] within {s}', f'("x") within {s}']
    return list(dict.fromkeys(out))


def long_variants(limit):
    out = []
    for n in S.sizes(limit):
        for k in sorted({0, n // 2, n - 1}):
            for c in "yz":
                w = "x" * k + c + "x" * (n - k - 1)
                out += [f'"{w}"', f'[{w}="a"]', f'[{w}:b="a"]']
    for n in S.sizes(min(limit, 130)):
        for k in sorted({0, n // 2, n - 1}):
            for c in ('"y"', "[]"):
                ws = ['"x"'] * k + [c] + ['"x"'] * (n - k - 1)
                out += [" ".join(ws), " | ".join(ws)]
            ws = ['a="x"'] * k + ['a!="x"'] + ['a="x"'] * (n - k - 1)
            out += ["[" + " & ".join(ws) + "]", "[" + " | ".join(ws) + "]"]
    return list(dict.fromkeys(out))


def unique(ctx, label, outs):
    seen = {}
    for _, o in outs:
        for s, t in o:
            if seen.setdefault(s, t) != t:
                ctx.violate(label, f"two different trees print alike: {s}\n  {seen[s]}\n  {t}")
                return len(seen)
    return len(seen)


def C17(ctx):
    nq, ne = ctx.pick((6, 7), (7, 9))
    outs = []
    ctx.run("all small trees", c17_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}")
    outs += ctx.out
    # the same shapes with all words alike: only structure, not the words, tells the trees apart
    plain = []
    for s in S.query_sentences(nq):
        plain.append(" ".join({"P": '"p"', "B": "[]", "Q": "+", "W": "within s"}.get(t, t) for t in s))
    for s in S.expr_sentences(ne + 1):
        plain.append("[" + "".join('a="p"' if t == "C" else t for t in s) + "]")
    ctx.run("all small shapes over equal words", c17_text, plain, "")
    outs += ctx.out
    ctx.run("one fact varied", c17_text, variants(), "names, qualifiers, operators, patterns, flags, bounds, scopes")
    outs += ctx.out
    ctx.run("short patterns", c17_text, [f'"{"".join(p)}"' for n in (1, 2, 3) for p in itertools.product('ab )(:/@"'.replace('"', ""), repeat=n)], "length <= 3 over 8 characters")
    outs += ctx.out
    ctx.run("constructs", c17_text, S.VALID, "")
    outs += ctx.out
    ctx.run("features together", c17_text, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    outs += ctx.out
    ctx.run("printed again after a change", c17_change, [(q, loc) for q in S.VALID + [ONE_OF_EACH] for loc in (False, True)], "every single fact of every node")
    ctx.run("sizes", c17_dim, S.dimension_items(cap=ctx.pick(41, 300)), "")
    ctx.run("big sizes", c17_dim, S.big_items(ctx.pick(1025, 5001), ctx.pick(20001, 70001)), "number of elements, lengths of words and gaps, around powers of two and round numbers")
    outs += ctx.out
    ctx.run("lengths", c17_dim, S.dimension_items(["pattern-length", "name-length", "qualifier-length", "repetition-digits", "repetition-number"], ctx.pick(300, 3000)), "")
    outs += ctx.out
    ctx.run("long words, one character varied", c17_text, long_variants(ctx.pick(300, 2000)), "length x place x character")
    outs += ctx.out
    if not ctx.violation:
        ctx.extra["distinct_printed_forms"] = unique(ctx, "printed forms of all spaces", outs)


def c17_dim(item):
    return c17_text(S.dimension_query(item))


# ---------------------------------------------------------------- C28
def snapshot(root):
    """everything reachable from the tree: structure, identity and content"""
    out = []
    for n in impl.nodes(root):
        d = impl.public(n)
        ch = d.pop("children")
        par = d.pop("parent")
        fl = d.pop("regex_flags", 0)
        out.append((id(n), type(n).__name__, tuple(map(id, ch)), id(par), sorted((k, repr(v)) for k, v in d.items()), tuple(sorted(map(str, fl))) if isinstance(fl, (set, frozenset)) else fl))
    return out


def op_print(root, text):
    return [str(n) for n in impl.nodes(root)], repr(root.location)


def op_visit(root, text):
    v, log = recorder(CLS, lambda n: True)
    return v.visit(root), [(n, id(x)) for n, x in log]


def _val(root, text, **kw):
    v = fv.FCSQLValidator(**kw)
    try:
        r = v.validate(root, query=text)
    except fv.SpecificationValidationError as ex:
        r = ("raised", str(ex), id(ex.node), ex.query_fragment)
    return r, [impl.detail(e) for e in v.errors], [impl.detail(e) for e in v.warnings]


def op_validate(root, text):
    return _val(root, text, raise_at_first_violation=False)


def op_validate_raise(root, text):
    return _val(root, text, warnings_as_errors=True)


def op_validate_lists(root, text):
    return _val(root, text, raise_at_first_violation=False, allowed_layer_identifiers=["text", "a0"], allowed_layer_qualifiers=[("pos", None), ("text", ["q"])])


def op_query(root, text):
    out = []
    for n in impl.nodes(root):
        out.append([n.has_node_type(t) for t in QueryNodeType])
        out.append([id(n.get_child(i, c)) for i in range(-1, 3) for c in (None, Expression)])
        out.append([id(n.get_first_child()), id(n.get_last_child()), id(n.get_last_child(Expression)), n.child_count])
        if isinstance(n, Expression):
            out.append([n.has_layer_identifier("text"), n.is_layer_qualifier_empty(), n.has_layer_qualifier("q"), n.is_regex_flags_empty()])
            out.append([n.has_operator(o) for o in Operator] + [n.has_regex_flag(f) for f in RegexFlag])
        for m in ("get_expression", "get_content", "get_query", "get_within"):
            if hasattr(n, m):
                out.append(id(getattr(n, m)()))
        if hasattr(n, "operands"):
            out.append([id(o) for o in n.operands])
    return out


def op_parse(root, text):
    """parsing the same text again gives an unrelated tree"""
    return impl.outcome(text)


def op_repr(root, text):
    return impl.tree(root), [hash(n) for n in impl.nodes(root)], [n == n for n in impl.nodes(root)]


OPS = [op_print, op_visit, op_validate, op_validate_raise, op_validate_lists, op_query, op_parse, op_repr]


def c28_hist(item):
    """one history of inspections on one tree"""
    text, hist = item
    c28_one(text, hist, True)
    c28_one(text, hist, False)
    return {"obs": (text, hist), "trans": 2 * len(hist), "traces": 2}


def c28_one(text, hist, located):
    root = QueryParser(enableSourceLocations=located).parse(text)
    before = snapshot(root)
    first = {}
    for k in hist:
        r = OPS[k](root, text)
        require(snapshot(root) == before, "%r: %s changes the tree (history %s)", text, OPS[k].__name__, [OPS[i].__name__ for i in hist])
        require(first.setdefault(k, r) == r, "%r: %s repeats with a different outcome (history %s)", text, OPS[k].__name__, [OPS[i].__name__ for i in hist])


def c28_share(item):
    """two trees, and the nodes of one tree, share no modifiable part"""
    a, b = item
    p = QueryParser(enableSourceLocations=True)
    r1, r2, r3 = p.parse(a), p.parse(b), QueryParser(enableSourceLocations=True).parse(a)
    owner = {}
    bare = [QueryParser(enableSourceLocations=False).parse(t) for t in (a, b, a)]
    for i, r in enumerate([r1, r2, r3] + bare):
        for k, n in enumerate(impl.nodes(r)):
            for part in [n, n.children] + [v for v in impl.public(n).values() if isinstance(v, (set, list, dict))]:
                o = owner.setdefault(id(part), (i, k, part))
                require(o[:2] == (i, k), "%r, %r: two nodes share one modifiable %s", a, b, type(part).__name__)
    # change everything in one tree: the others do not move
    s2, s3 = snapshot(r2), snapshot(r3)
    for n in list(impl.nodes(r1)):
        if isinstance(n, Expression):
            others = [(m, set(impl.public(m).get("regex_flags") or ())) for m in impl.nodes(r1) if m is not n]
            if isinstance(n.regex_flags, set):
                n.regex_flags.clear()
                n.regex_flags.add(RegexFlag.CASE_SENSITIVE)
                n.regex_flags.add(RegexFlag.LITERAL_MATCHING)
                n.regex_flags.add(RegexFlag.IGNORE_DIACRITICS)
                for m, was in others:
                    require(set(impl.public(m).get("regex_flags") or ()) == was, "%r: changing the flags of one condition changes another's", a)
            n.qualifier, n.identifier, n.regex = "zz", "zz", "zz"
    for n in list(impl.nodes(r1)):
        n.children.append(n)
    require(snapshot(r2) == s2 and snapshot(r3) == s3, "%r: changing one tree shows in another (%r)", a, b)
    r4 = p.parse(a)
    require(impl.tree(r4) == impl.tree(r3), "%r: parsing again after changing an earlier tree differs", a)
    return {"obs": item, "traces": 4}


def c28_changed(item):
    """a tree changed by hand stays as it was left, whatever is asked of it"""
    text, loc = item
    parse = QueryParser(enableSourceLocations=loc).parse
    n = 0
    extra = [("regex_flags", set()), ("qualifier", ""), ("qualifier", " "), ("regex", ""), ("identifier", "POS"), ("min_occurs", 7), ("max_occurs", 0)]
    for i in range(len(list(impl.nodes(parse(text))))):
        at = list(impl.nodes(parse(text)))[i]
        for what, value in list(changes(at)) + [(w, x) for w, x in extra if hasattr(at, w)]:
            root = parse(text)
            x = list(impl.nodes(root))[i]
            apply(x, what, set(value) if isinstance(value, set) else value)
            before = snapshot(root)
            first = {}
            for k in (*range(len(OPS) - 1), *range(len(OPS) - 1)):
                r = OPS[k](root, text)
                require(snapshot(root) == before, "%r with %s of node %d set to %r: %s changes the tree", text, what, i, value, OPS[k].__name__)
                require(first.setdefault(k, r) == r, "%r with %s of node %d set to %r: %s repeats with a different outcome", text, what, i, value, OPS[k].__name__)
                n += 1
    return {"obs": (item, n), "traces": n, "trans": n}


def c28_flags(item):
    """an Expression owns its flags: changing the set it was built from, or another's, does not show"""
    fl = {f for i, f in enumerate(RegexFlag) if item >> i & 1}
    given = set(fl)
    a = Expression(None, "a", Operator.EQUALS, "x", given)
    b = Expression(None, "a", Operator.EQUALS, "x", given)
    c = Expression(None, "a", Operator.EQUALS, "x", a.regex_flags)
    given.clear()
    if a.regex_flags is not None:
        require(set(a.regex_flags) == fl and set(b.regex_flags) == fl and set(c.regex_flags) == fl, "flags follow the caller's set")
        if isinstance(a.regex_flags, set):
            a.regex_flags.clear()
        require(set(b.regex_flags) == fl and set(c.regex_flags) == fl, "two conditions share one flag set")
    else:
        require(not fl, "flags lost")
    return {"obs": item}


C28_T = ['"a"', '"a"/i "b"/i', '[pos = "x"/dI & q:text != "y" | !foo = "z"]{2,}', '("a" | [] "b")+ "c" within s', '[pos = "foo"]', '[word = "a"] | [a:pos = "b"/l]',
         '[a = "b" & (c = "d" | e = "f")]', "[]"]


def c28_words(w):
    text = " ".join(w)
    n = 0
    for h in (tuple(range(len(OPS))) * 2, tuple(reversed(range(len(OPS))))):
        n += c28_hist((text, h))["trans"]
    c28_share((text, '"a"/i'))
    return {"obs": text, "trans": n}


def c28_built(item):
    """trees built by hand from one list of parts: changing one never shows in another"""
    k, i, j = item
    ch = [leaf(0) for _ in range(k)]
    keep = list(ch)
    mk = lambda i: list(itertools.islice(containers(ch), i, i + 1))  # noqa: E731
    a, b = mk(i), mk(j)
    if not a or not b:
        return None
    (na, a), (nb, b) = a[0], b[0]
    require(ch == keep and len(a.children) == k and len(b.children) == k, "%s and %s built from one list of %d: %d and %d children, the list has %d", na, nb, k, len(a.children), len(b.children), len(ch))
    a.children.append(leaf(1))
    require(len(b.children) == k and len(ch) == k, "%s and %s built from one list: a child added to one shows in the other or in the list", na, nb)
    ch.clear()
    require(len(b.children) == k and len(a.children) == k + 1, "%s built from a list follows later changes of the list", na)
    del a.children[:]
    require([id(c) for c in b.children] == [id(c) for c in keep], "%s and %s built from one list: children removed from one vanish from the other", na, nb)
    return {"obs": item, "traces": 2}


def c28_text(item):
    text = item
    return c28_hist((text, tuple(range(len(OPS))) * 2))


def c28_size(item):
    return c28_text(S.dimension_query(item))


def odd_conditions():
    """conditions with every pattern the validator or the printer may look at closely"""
    from mc import checks_val as V

    pats = list(dict.fromkeys([a + p + b for p in V.TAGS for a, b in ((" ", ""), ("", " "), ("", ""), ("\t", "\n"), ("x", ""), ("(", ")"))] + V.patterns()[::3] + ["", " ", "e\u0301", "\u00e9", "\ufb01", "a\\nb", "\\.", "\\\\"]))
    out = []
    for p in pats:
        if '"' in p or (p.count("\\") and not M.status(f'"{p}"')[0] == "ok") or any(ord(c) < 32 and c not in "\n\t" for c in p):
            continue
        out += [f'[pos = "{p}"]', f'"{p}" [pos = "{p}"/i | q:pos != "{p}" | word = "{p}"/I]']
    return out


def C28(ctx):
    d = ctx.pick(3, 4)
    ctx.run("parts shared by hand-built trees", c28_built, list(itertools.product((1, 2, 3), range(11), range(11))), "1-3 parts x pairs of containers")
    ctx.run("trees changed by hand", c28_changed, [(t, loc) for t in C28_T + S.VALID for loc in (True, False)], "every change of every node, 14 inspections after each")
    ctx.run("odd patterns", c28_text, [t for t in odd_conditions() if M.status(t)[0] == "ok"], "16 inspections")
    ctx.run("features together", c28_text, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    ctx.run("all inspection histories", c28_hist, [(t, h) for t in C28_T for h in itertools.product(range(len(OPS)), repeat=d)], f"length {d} over {len(OPS)} inspections, {len(C28_T)} trees")
    ctx.run("no shared parts", c28_share, [(a, b) for a in C28_T for b in C28_T], "pairs of queries")
    nq, ne = ctx.pick((5, 6), (6, 8))
    ctx.run("all small trees, long histories", c28_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}, 24 inspections")
    ctx.run("flag sets", c28_flags, list(range(16)), "all subsets")
    ctx.run("sizes", c28_size, S.dimension_items(cap=ctx.pick(33, 130)) + S.big_items(ctx.pick(513, 2049), ctx.pick(5001, 70001)), "every dimension; around powers of two and round numbers beyond")


# ---------------------------------------------------------------- C29
class Strict(logging.Handler):
    """formats every record; a failing log call is recorded instead of printed"""

    def __init__(self):
        super().__init__(logging.NOTSET)
        self.bad = []
        self.n = 0

    def emit(self, record):
        self.n += 1
        try:
            m = record.getMessage()
            self.format(record)
            assert isinstance(m, str)
        except Exception as ex:
            self.bad.append(f"{record.msg!r} {record.args!r}: {type(ex).__name__}: {ex}"[:300])


def visited(text):
    """what visitors with every kind of handler see and return"""
    if not fcsql.can_parse(text):
        return []
    out = []
    root = QueryParser().parse(text)
    where = {id(x): i for i, x in enumerate(impl.nodes(root))}
    for how in mk_handlers([], None, True):
        for names in (CLS, ["Expression", "SimpleWithin"]):
            for go_on in (True, False):
                for base in (QueryVisitor, QueryVisitorAdapter):
                    log = []
                    v = type("Kinds", (base,), {})()
                    mk = mk_handlers(log, v, go_on)[how]
                    for name in names:
                        setattr(v, "visit_" + name, mk(name))
                    try:
                        r = v.visit(root)
                    except Exception as ex:
                        r = repr(ex)
                    out.append((how, len(names), go_on, r, [(name, where[id(x)]) for name, x in log]))
    return out


def everything(text, visits=False):
    """all observable results for one text"""
    out = []
    for loc in (False, True):
        p = QueryParser(enableSourceLocations=loc)
        try:
            r = p.parse(text)
            where = {id(x): i for i, x in enumerate(impl.nodes(r))}
            out.append(("tree", impl.tree(r, True, False), str(r), [where.get(id(x.parent)) for x in impl.nodes(r)], r.parent is None))
            for kw in ({}, {"raise_at_first_violation": False}, {"warnings_as_errors": True}):
                v = fv.FCSQLValidator(**kw)
                try:
                    out.append(v.validate(r, query=text))
                except fv.SpecificationValidationError as ex:
                    out.append(("raised", str(ex), ex.query_fragment))
                out.append([impl.detail(e) for e in v.errors + v.warnings])
        except QueryParserException as ex:
            out.append(("error", str(ex), type(ex.__cause__).__name__))
        out.append([impl.detail(e) for e in p.errors])
    out.append(fcsql.can_parse(text))
    if visits:
        out += visited(text)
    for w in (False, True):
        out.append(fcsql.validate(text, warnings_as_errors=w))
        out.append([impl.detail(e) for e in fcsql.validate(text, return_errors=True, warnings_as_errors=w)])
    try:
        t = fcsql.antlr_parse(text)
        out.append(t.getText())
    except fcsql.SyntaxError as ex:
        out.append(("low", str(ex)))
    return out


def c29_levels(text):
    return c29(text, True)


def c29(text, deep=False):
    root = logging.getLogger()
    lib = logging.getLogger("fcsql")
    names = [n for n in list(logging.root.manager.loggerDict) if n == "fcsql" or n.startswith("fcsql.")]
    saved = {n: (logging.getLogger(n).level, logging.getLogger(n).disabled) for n in names}
    rl = root.level
    h = Strict()
    was = logging.raiseExceptions
    quiet = logging.NullHandler()
    root.addHandler(quiet)
    try:
        lib.setLevel(logging.CRITICAL)
        off = everything(text, deep)
        root.addHandler(h)
        logging.raiseExceptions = True
        lib.setLevel(logging.DEBUG)
        for n in names:
            if n != "fcsql":
                logging.getLogger(n).setLevel(logging.DEBUG)
        on = everything(text, deep)
        levels = []
        for lv in (1, 5, logging.INFO, logging.WARNING, logging.ERROR) if deep else ():
            for n in names:
                logging.getLogger(n).setLevel(lv)
            lib.setLevel(lv)
            levels.append((lv, everything(text, deep)))
        if deep:
            for n in names:
                logging.getLogger(n).setLevel(logging.DEBUG)
            logging.disable(logging.CRITICAL)
            levels.append(("debug, all logging disabled", everything(text, deep)))
            logging.disable(logging.NOTSET)
        # the level set on the root logger only, and on one logger of the library only
        for who in [None] + names if deep else ():
            for n in names:
                logging.getLogger(n).setLevel(logging.NOTSET if who is None else logging.DEBUG if n == who else logging.CRITICAL)
            root.setLevel(logging.DEBUG if who is None else rl)
            levels.append((f"debug on {who or 'the root logger'} only", everything(text, deep)))
            root.setLevel(rl)
        for n in names:
            logging.getLogger(n).setLevel(logging.NOTSET)
        lib.setLevel(logging.CRITICAL)
        again = everything(text, deep)
    finally:
        logging.disable(logging.NOTSET)
        for n, (lv, dis) in saved.items():
            logging.getLogger(n).setLevel(lv)
            logging.getLogger(n).disabled = dis
        root.setLevel(rl)
        root.removeHandler(h)
        root.removeHandler(quiet)
        logging.raiseExceptions = was
    require(not h.bad, "%r: log call fails: %s", text, h.bad)
    for i, (a, b, c) in enumerate(itertools.zip_longest(off, on, again)):
        require(a == b, "%r: debug logging changes result %d:\n  off %r\n  on  %r", text, i, a, b)
        require(a == c, "%r: result %d differs after debug logging was on:\n  before %r\n  after  %r", text, i, a, c)
    for lv, res in levels:
        for i, (a, b) in enumerate(itertools.zip_longest(off, res)):
            require(a == b, "%r: logging at level %s changes result %d:\n  off %r\n  on  %r", text, lv, i, a, b)
    return {"obs": (text, h.n), "traces": 3 + len(levels), "trans": h.n}


def c29_words(w):
    return c29(" ".join(w))


def c29_dim(item):
    return c29(S.dimension_query(item))


def C29(ctx):
    nq, ne = ctx.pick((4, 5), (6, 7))
    ctx.run("all small queries", c29_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}")
    L = ctx.pick(3, 4)
    ctx.run("all short word sequences (mostly rejected)", c29_words, [tuple(M.word(t, k) for k, t in enumerate(p + (x,))) for p, _ in M.prefixes(L) for x in M.TOKENS], f"viable prefixes <= {L} plus one word")
    ctx.run("constructs and errors", c29_levels, S.BASE + ["%s %d" + q for q in S.BASE[:6]] + ['"%s %d {0}"', "[a=\"%(x)s\"]", '"%"', '"{}"/i', "%", "{", "\U0001f600%s"], "")
    al = "\"a\\ %[=\n"
    ctx.run("all short strings", c29, ["".join(p) for n in range(0, ctx.pick(3, 4) + 1) for p in itertools.product(al, repeat=n)], f"over {al!r}")
    ctx.run("sizes", c29_dim, S.dimension_items(cap=ctx.pick(8, 40)), "")
    ctx.run("features together", c29, S.features(ctx.pick(2, 3)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(2, 3))
    ctx.run("features together, with a mistake", c29, S.feature_mistakes(ctx.pick(0, 1)), "a word left out, doubled, a wrong piece in between; up to %d of 12 features away from three base queries" % ctx.pick(0, 1))
    ctx.run("many mistakes", c29, S.many_mistakes(sorted(set(S.sizes(ctx.pick(4, 20)) + [40, 70] + S.big_sizes(ctx.pick(70, 257))))), "one mistake over and over: up to 40 times, around powers of two and round numbers")
    ctx.run("big sizes", c29_dim, [(d, n) for d in ("sequence", "wildcards", "or", "pattern-length", "name-length", "leading-space", "flags-length") for n in (63, 64, 65, 127, 128, 129, 255, 256, 257) + tuple(S.big_sizes(ctx.pick(257 if d in S.COUNTS else 5001, 20001)))], "around powers of two and round numbers")


# ---------------------------------------------------------------- C30
QUALS = [None, "", " ", "\t\n", "q", "pos", "x-q", "Q", " q"]
IDS = ["a", "", "pos", "q", "A", "text"]


def c30_expr(item):
    q, i, op, fl = item
    op = list(Operator)[op]
    flags = {f for k, f in enumerate(RegexFlag) if fl >> k & 1}
    for given in ([flags] if flags else [None, set(), frozenset()]):
        n = Expression(q, i, op, "r", given)
        blank = q is None or not q.strip()
        what = f"Expression({q!r}, {i!r}, {op!s}, 'r', {given!r})"
        require(n.is_layer_qualifier_empty() is blank, "%s: is_layer_qualifier_empty() gives %r", what, n.is_layer_qualifier_empty())
        for x in [x for x in QUALS if x is not None]:
            want = not blank and x == q
            require(n.has_layer_qualifier(x) is want, "%s: has_layer_qualifier(%r) gives %r", what, x, n.has_layer_qualifier(x))
        for x in IDS:
            require(n.has_layer_identifier(x) is (x == i), "%s: has_layer_identifier(%r) gives %r", what, x, n.has_layer_identifier(x))
        for o in Operator:
            require(n.has_operator(o) is (o is op), "%s: has_operator(%s) gives %r", what, o, n.has_operator(o))
        require(n.is_regex_flags_empty() is (not flags), "%s: is_regex_flags_empty() gives %r", what, n.is_regex_flags_empty())
        for f in RegexFlag:
            require(n.has_regex_flag(f) is (f in flags), "%s: has_regex_flag(%s) gives %r", what, f, n.has_regex_flag(f))
        for t in QueryNodeType:
            require(n.has_node_type(t) is (t is QueryNodeType.EXPRESSION), "%s: has_node_type(%s)", what, t)
        for m in ("has_layer_identifier", "has_layer_qualifier", "has_operator", "has_regex_flag", "has_node_type"):
            try:
                r = getattr(n, m)(None)
            except TypeError:
                continue
            raise Violation(f"{what}: {m}(None) gives {r!r} instead of a type error")
    return {"obs": item, "traces": 1, "trans": 40}


TYPES = {
    "segment": "QUERY_SEGMENT", "group": "QUERY_GROUP", "sequence": "QUERY_SEQUENCE", "disjunction": "QUERY_DISJUNCTION", "within": "QUERY_WITH_WITHIN",
    "cond": "EXPRESSION", "wildcard": "EXPRESSION_WILDCARD", "exgroup": "EXPRESSION_GROUP", "not": "EXPRESSION_NOT", "and": "EXPRESSION_AND", "or": "EXPRESSION_OR",
    "scope": "SIMPLE_WITHIN",
}


def c30_change(item):
    """answers follow the values stored later"""
    n = Expression("q", "a", Operator.EQUALS, "r", {RegexFlag.CASE_SENSITIVE})
    vals = {"qualifier": "q", "identifier": "a", "operator": Operator.EQUALS, "regex_flags": {RegexFlag.CASE_SENSITIVE}}
    k = 0
    for what, v in ((None, None),) + item:
        if what:
            v = set(v) if isinstance(v, frozenset) else v
            setattr(n, what, v)
            vals[what] = v
        q, i, o, fl = (vals[x] for x in ("qualifier", "identifier", "operator", "regex_flags"))
        got = [n.is_layer_qualifier_empty(), n.is_regex_flags_empty()]
        got += [n.has_layer_qualifier(x) for x in ("q", "a", "b")] + [n.has_layer_identifier(x) for x in ("q", "a", "b")]
        got += [n.has_operator(x) for x in Operator] + [n.has_regex_flag(x) for x in RegexFlag]
        want = [not q, not fl] + [x == q for x in ("q", "a", "b")] + [x == i for x in ("q", "a", "b")] + [x is o for x in Operator] + [x in (fl or ()) for x in RegexFlag]
        require(got == want, "a condition changed by %s answers %r, its values say %r", item, got, want)
        k += len(want)
    return {"obs": item, "trans": k}


C30_SET = [("qualifier", None), ("qualifier", "q"), ("qualifier", "b"), ("identifier", "a"), ("identifier", "q"), ("operator", Operator.EQUALS), ("operator", Operator.NOT_EQUALS),
           ("regex_flags", None), ("regex_flags", frozenset()), ("regex_flags", frozenset({RegexFlag.LITERAL_MATCHING})), ("regex_flags", frozenset(RegexFlag))]


class Text(str):
    """a text that is equal to others but not the same object"""


def twins(x):
    """values equal to x that are other objects"""
    return [Text(x), "".join(list(x)), x[:1] + x[1:]] if type(x) is str else [x]


def c30_equal(item):
    """what counts is whether the argument equals the stored value, not whether it is the same object"""
    q, i, op, bits = item
    op = list(Operator)[op]
    flags = {f for k, f in enumerate(RegexFlag) if bits >> k & 1}
    n = Expression(Text(q), "".join(list(i)), op, "r", flags)
    k = 0
    asks = [("has_layer_qualifier", x, x == q) for x in ("q", "qual", "a-b", q, i, "r")] + [("has_layer_identifier", x, x == i) for x in ("q", "qual", "a-b", q, i, "r")]
    asks += [("has_operator", x, x is op) for x in Operator] + [("has_regex_flag", x, x in flags) for x in RegexFlag] + [("has_node_type", x, x is QueryNodeType.EXPRESSION) for x in QueryNodeType]
    for m, x, want in asks:
        for y in twins(x):
            got = getattr(n, m)(y)
            require(got is want, "Expression(%r, %r, %s, 'r', %r): %s(%r) gives %r, an equal value gives %r", q, i, op, flags, m, y, got, want)
            k += 1
    return {"obs": item, "trans": k}


def c30_tree(text):
    """kinds and stored values of parsed nodes against the reference tree"""
    root = QueryParser().parse(text)
    n = 0
    for x in impl.nodes(root):
        want = getattr(QueryNodeType, TYPES[impl.kind(x)])
        for t in QueryNodeType:
            require(x.has_node_type(t) is (t is want), "%r: %s.has_node_type(%s) gives %r", text, type(x).__name__, t, x.has_node_type(t))
            n += 1
        try:
            r = x.has_node_type(None)
        except TypeError:
            pass
        else:
            raise Violation(f"{text!r}: {type(x).__name__}.has_node_type(None) gives {r!r} instead of a type error")
        if isinstance(x, Expression):
            require(x.is_layer_qualifier_empty() is (not x.qualifier), "%r: is_layer_qualifier_empty", text)
            for q in ("q", "a", x.qualifier or "zz", (x.qualifier or "zz") + "x"):
                require(x.has_layer_qualifier(q) is (x.qualifier == q), "%r: has_layer_qualifier(%r)", text, q)
            for i in ("text", x.identifier, x.identifier + "x", x.identifier.upper() + "_"):
                require(x.has_layer_identifier(i) is (x.identifier == i), "%r: has_layer_identifier(%r)", text, i)
            require(x.is_regex_flags_empty() is (not x.regex_flags), "%r: is_regex_flags_empty", text)
            for f in RegexFlag:
                require(x.has_regex_flag(f) is (f in (x.regex_flags or ())), "%r: has_regex_flag(%s)", text, f)
            for o in Operator:
                require(x.has_operator(o) is (x.operator == o), "%r: has_operator(%s)", text, o)
    return {"obs": (text, n), "trans": n}


def c30_words(w):
    return c30_tree(" ".join(w))


def c30_long(n):
    """names of n characters against their neighbours: same, one shorter, one longer, one character different anywhere"""
    s = ("abcdefghij" * (n // 10 + 1))[:n]
    others = [s, s[:-1], s + "k", s[:-1] + "#", "#" + s[1:], s[: n // 2] + "#" + s[n // 2 + 1 :], s.upper(), s[:64], s[:255], s + s, "".join(s)]
    for x in (Expression(s, "b", Operator.EQUALS, "r", None), Expression("b", s, Operator.EQUALS, "r", None)):
        for o in others:
            for m, own in (("has_layer_qualifier", x.qualifier), ("has_layer_identifier", x.identifier)):
                got = getattr(x, m)(o)
                require(got is (o == own), "%s of a name of %d characters, %d of them given: %r", m, n, len(o), got)
        require(x.is_layer_qualifier_empty() is False, "a qualifier of %d characters counts as empty", n)
    for blank in (" ", "\t"):
        require(Expression(blank * n, "b", Operator.EQUALS, "r", None).is_layer_qualifier_empty() is True, "a qualifier of %d blanks does not count as empty", n)
        require(Expression(blank * n + "q", "b", Operator.EQUALS, "r", None).is_layer_qualifier_empty() is False, "a qualifier after %d blanks counts as empty", n)
    return {"obs": n, "traces": 48}


def c30_built(item):
    """hand-built nodes of every class know their kind"""
    cls = KIND_CLASSES[item]
    mk = {
        "Expression": lambda: leaf(0), "ExpressionWildcard": ExpressionWildcard, "SimpleWithin": lambda: leaf(2), "QuerySegment": lambda: QuerySegment(leaf(0), 0, 1),
        "QueryGroup": lambda: QueryGroup(leaf(5), 1, 1), "QueryWithWithin": lambda: QueryWithWithin(leaf(5), leaf(2)),
    }.get(cls.__name__, lambda: cls([leaf(0), leaf(1)]) if cls.__name__ not in ("ExpressionGroup", "ExpressionNot") else cls(leaf(0)))
    x = mk()
    want = getattr(QueryNodeType, TYPES[impl.kind(x)])
    for t in QueryNodeType:
        require(x.has_node_type(t) is (t is want), "%s.has_node_type(%s) gives %r", cls.__name__, t, x.has_node_type(t))
    return {"obs": item}


def C30(ctx):
    names = [n for n in S.mined().names() if len(n) < 20]
    ctx.run("conditions: qualifier x layer x operator x flags, every question", c30_expr, list(itertools.product(QUALS, IDS, range(2), range(16))) , "complete product")
    ctx.run("equal arguments", c30_equal, list(itertools.product(("q", "qual", "a-b", "text"), ("a", "text", "a-b", "qual"), range(2), range(16))), "texts equal to the stored ones but other objects")
    ctx.run("names found in the code", c30_expr, [(q, "a", 0, 0) for q in names] + [("q", i, 1, 3) for i in names], "")
    nq, ne = ctx.pick((6, 7), (7, 9))
    ctx.run("parsed trees", c30_words, S.small_queries(nq, ne), f"query words <= {nq}, expression words <= {ne}")
    ctx.run("features together", c30_tree, S.features(ctx.pick(3, 4)), "every choice of up to %d of 12 features away from three base queries" % ctx.pick(3, 4))
    ctx.run("constructs", c30_tree, S.VALID + [ONE_OF_EACH], "")
    d = ctx.pick(2, 4)
    ctx.run("values changed later", c30_change, [p for r in range(1, d + 1) for p in itertools.product(C30_SET, repeat=r)], f"<= {d} of {len(C30_SET)} assignments, every question after each")
    ctx.run("hand-built nodes", c30_built, list(range(len(KIND_CLASSES))), "12 classes x 12 kinds")
    ctx.run("lengths of names", c30_long, S.sizes(130) + S.big_sizes(ctx.pick(70001, 300000)), "up to 40, around powers of two and round numbers")
