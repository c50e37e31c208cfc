"""C19 C20: histories of calls and interleavings of threads, on the real code"""
import dis
import gc
import itertools
import json
import os
import pickle
import subprocess
import sys
import threading
import time
import types
import unicodedata

from mc import boot  # noqa: F401
import fcsql
from fcsql.parser import Operator, QueryParser, QueryParserException, RegexFlag
from fcsql.validation import FCSQLValidator, SpecificationValidationError

from mc import core, impl, model as M, spaces as S
from mc.core import Violation, require

# ---------------------------------------------------------------- fresh processes
def in_fresh(fn, *args, timeout=60):
    """value of fn(*args) in a forked copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ("ok", fn(*args))
            except Violation as ex:
                out = ("bad", str(ex))
            except BaseException as ex:  # noqa: B036
                import traceback

                out = ("bad", "unexpected exception:\n" + traceback.format_exc(limit=-6))
                del ex
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    require(data, "a process running %s ended without an answer", getattr(fn, "__name__", fn))
    k, v = pickle.loads(data)
    if k == "bad":
        raise Violation(v)
    return v


def full(node):
    """everything a caller can see of a tree, one-element sequences included"""
    return (
        type(node).__name__,
        str(node.node_type),
        impl.attrs(node, impl.kind(node)),
        impl.span(node),
        node.parent is None,
        tuple(full(c) for c in node.children),
    )


def result(text, parser):
    try:
        node = parser.parse(text)
    except QueryParserException as ex:
        return ("err", str(ex), tuple(impl.detail(e) for e in parser.errors)), None
    return ("ok", full(node), tuple(impl.detail(e) for e in parser.errors)), node


CONFIGS = [
    dict(enableSourceLocations=True),
    dict(enableSourceLocations=False, unicode_normalization_form="NFD"),
    dict(enableSourceLocations=True, unicode_normalization_form=None, default_identifier="zz", default_operator=Operator.NOT_EQUALS),
    dict(),
]
QUERIES = [
    '"a"',
    '"a"/i',
    '[pos="\u00e9"/ld] | "e\u0301"',
    '[pos="e\u0301"/id] | "\u00e9"',
    '("a" [x:b!="c"]{2,3})+ within s',
    '[!a="1" & (b="2" | c="3")] []',
    '"a" %',
    '"a" "b" ]\n)',
    '"a"{3,2}',
    '"a"/iI',
    '"\\U00110000"',
    "",
    '"a\\n\\."  ',
    "[" + "!" * 400 + 'a="a"]',  # uses up the interpreter stack
    '[foo="x" | word="y"]',
    '"a" within',
]


def ref_one(text, c):
    return result(text, QueryParser(**CONFIGS[c]))[0]


def ref_val(text):
    return (
        fcsql.can_parse(text),
        fcsql.validate(text),
        tuple(impl.detail(e) for e in fcsql.validate(text, return_errors=True)),
        tuple(impl.detail(e) for e in fcsql.validate(text, return_errors=True, warnings_as_errors=True)),
    )


REF = {}


def prepare(texts, configs):
    """outcomes in fresh processes, before anything else was parsed"""
    for t in texts:
        for c in configs:
            REF[t, c] = in_fresh(ref_one, t, c)
        REF[t, "v"] = in_fresh(ref_val, t)


def c19_ref(text):
    """collects reference outcomes, each in its own process"""
    out = {}
    for c in range(len(CONFIGS)):
        out[text, c] = in_fresh(ref_one, text, c)
    out[text, "v"] = in_fresh(ref_val, text)
    return {"out": out, "obs": repr(out), "traces": len(CONFIGS) + 1}


def wreck(node):
    """a caller changes everything it can reach in a result"""
    for n in list(impl.nodes(node)):
        d = impl.public(n)
        fl = d.get("regex_flags")
        if isinstance(fl, set):
            fl.clear()
            fl.update(RegexFlag)
        if isinstance(fl, list):
            fl.append(RegexFlag.LITERAL_MATCHING)
        for k, v in (("identifier", "wrecked"), ("qualifier", "w"), ("regex", "w"), ("min_occurs", 77), ("max_occurs", 78), ("operator", None), ("location", None)):
            if k in d:
                setattr(n, k, v)
    for n in list(impl.nodes(node)):
        n.children.clear()


class World:
    """parsers, results and error lists a history has produced"""

    def __init__(self):
        self.shared = {}
        self.kept = []  # (what, getter, value when handed out)
        self.last = None
        self.errors = None

    def remember(self, what, get):
        self.kept.append((what, get, get()))

    def still(self, hist):
        for what, get, was in self.kept:
            require(get() == was, "history %r: %s handed out earlier changed\n  was %r\n  is  %r", hist, what, was, get())

    def step(self, op, hist):
        k, q, c = op
        text = QUERIES[q] if isinstance(q, int) else q
        if k in "PFD":
            if k == "P":
                p = self.shared.setdefault(c, None) or QueryParser(**CONFIGS[c])
                self.shared[c] = p
            else:
                p = QueryParser(**CONFIGS[c])
            if k == "D":  # a string object of its own, thrown away afterwards
                text = "".join(list(text))
            got, node = result(text, p)
            want = REF[text, c]
            require(got == want, "history %r: %r gives\n  %r\nin a new process\n  %r", hist, text, got, want)
            self.errors = p.errors
            lst = p.errors
            self.remember("an error list", lambda: [impl.detail(e) for e in lst])
            if node is not None:
                self.last = node
                self.remember("a tree", lambda: full(node))
            return got
        if k == "V":
            got = ref_val(text)
            require(got == REF[text, "v"], "history %r: can_parse/validate of %r give\n  %r\nin a new process\n  %r", hist, text, got, REF[text, "v"])
            return got
        if k == "L":
            from mc.checks_gram import low

            got = low(text) is not None
            want = M.status(text)[0] in ("ok", "static")
            require(got == want, "history %r: antlr_parse(%r) %s", hist, text, "accepts" if got else "rejects")
            return got
        if k == "M":
            if self.last is not None:
                node = self.last
                self.kept = [x for x in self.kept if x[0] != "a tree" or x[2] != full(node)]
                wreck(node)
                self.last = None
            return None
        if k == "E":
            if self.errors is not None:
                lst = self.errors
                self.kept = [x for x in self.kept if x[0] != "an error list"]
                lst.append("junk")
                lst.append("more")
            return None
        raise ValueError(k)


def history(ops):
    w = World()
    obs = []
    for i, op in enumerate(ops):
        obs.append(w.step(op, ops[: i + 1]))
    w.still(ops)
    return repr(obs)


def c19_cold(ops):
    """the history in a process of its own"""
    return {"obs": in_fresh(history, ops), "trans": len(ops), "traces": len(ops)}


def c19_warm(ops):
    """the history after everything this worker has parsed before"""
    return {"obs": history(ops), "trans": len(ops), "traces": len(ops)}


def c19_repeat(item):
    """one pair of calls repeated many times on shared parsers"""
    ops, times = item
    w = World()
    for r in range(times):
        for op in ops:
            w.step(op, (ops, f"round {r}"))
        if len(w.kept) > 60:
            w.still((ops, f"round {r}"))
            w.kept = w.kept[:8] + w.kept[-8:]
    w.still(ops)
    return {"obs": item, "trans": times * len(ops), "traces": times * len(ops)}


def variants(q):
    """queries that look like q: a cache that tells queries apart by less than their text mixes them up"""
    out = {q + " ", " " + q, q.upper(), q.lower(), q.swapcase(), q.replace(" ", "  "), q.replace('"a', '" a'), q.replace('"a', '"A'), q.replace('"a', '"b'), q.replace('"', "'"), q.replace(" ", ""), q[:-1], q[1:], q + q, q.replace("1", "2"), q + "\n", q.strip(), q.replace("=", "!="), q.replace("!=", "=")}
    out |= {unicodedata.normalize(f, q) for f in ("NFC", "NFD", "NFKC")}
    out |= {q[:i] + q[i + 1 :] for i in range(len(q))} if len(q) < 12 else set()
    out |= {q + ' "' + "x" * 40 + d + '"' for d in "12"}
    out.discard(q)
    return sorted(out)


# queries far beyond and well below every limit: what a call does about an extreme query is over with that call
EXTREME = [
    "(" * 40 + '"a"' + ")" * 40,
    "(" * 220 + '"a"' + ")" * 220,
    "[" + "!" * 60 + 'a="a"]',
    "[" + "!(" * 160 + 'a="a"' + ")" * 160 + "]",
    " ".join(['"a"'] * 300),
    " | ".join(['"a"'] * 500),
    "[" + " & ".join('a%d="b"' % i for i in range(100)) + "]",
    '"' + "a" * 6000 + '"',
    '"' + "\u00e9é😀" * 800 + '" within s',
    "[" + "n" * 6000 + '="a"]',
    '"a"' + " ]" * 200,
    '"a" ' + "%" * 800,
    '"a"{' + "1" * 4000 + "}",
    '"a"{' + "1" * 5000 + "}",
    '"a"{2,' + "1" * 500 + "} [foo='b']",
    " " * 6000 + '"a"',
    "\n" * 2500 + "[word='b'] ]",
    '"a"' * 400 + "(",
    " " * 5000,
]

SIMILAR = [q for q in QUERIES if len(q) < 60]


def c19_similar(item):
    """q, then a similar query, then q again"""
    a, b, c = item
    return c19_cold((("P", a, c), ("P", b, c), ("D", a, c), ("V", b, 0), ("D", b, c), ("V", a, 0)))


def c19_corpus(item):
    """a long list of queries in one process, forwards or backwards, one parser"""
    lo, step, c = item
    texts = [t for t in CORPUS][lo::step]
    if c % 2:
        texts = texts[::-1]
    p = QueryParser(**CONFIGS[c])
    for rnd in range(2):
        for t in texts:
            got = result(t, p)[0]
            require(got == REF[t, c], "%r after %d other queries gives\n  %r\nin a new process\n  %r", t, len(texts), got, REF[t, c])
    return {"obs": item, "trans": 2 * len(texts), "traces": 2 * len(texts)}


CORPUS = []

FAMILIES = [
    '"%s\\x41"', '"%s"', '"e\u0301%s"/i', "[n%s = 'v\\n']", '[q%s:x != "a"]', '"a"{%s,99999}', '[a = "%s" & !b = "\\t\\.%s"] "%s"', '("w%s" | []{2,})+ within s',
    '"%s" ]', '"%s" %%%%', "[n%s]", '"a"{99999,%s}', '"%s"/iI', "[n%s = 'a' | word = '%s'] [pos = 'p%s']",
]


def masked(text, i, c, p=None):
    """outcomes with the number written out of them"""
    out = ref_val(text) if c == "v" else result(text, p or QueryParser(**CONFIGS[c]))[0]
    return repr(out).replace(str(i), "#")


def c19_family(item):
    """very many different queries of one form, one after the other, on one parser: each as the first of them in a new process"""
    f, c, n = item
    form = lambda i: FAMILIES[f].replace("%s", str(i)).replace("%%", "%")  # noqa: E731
    first = 23457
    want = in_fresh(masked, form(first), first, c)
    p = None if c == "v" else QueryParser(**CONFIGS[c])
    order = [first + i for i in range(n)]
    for k in (order, order[:3], order[::-1][:40], order[::97]):
        for i in k:
            got = masked(form(i), i, c, p)
            require(got == want, "%r among %d others of its form gives\n  %s\nalone such a query gives\n  %s", form(i), n, got, want)
    return {"obs": (item, want), "trans": n, "traces": n}


def c19_seed(seed):
    """seed: a hash seed, or options and environment of the interpreter"""
    opts, more = ((), {"PYTHONHASHSEED": str(seed)}) if isinstance(seed, int) else (seed[0], dict(seed[1]))
    env = dict(os.environ, **more)
    r = subprocess.run([sys.executable, *opts, "-m", "mc.hist_dump"], cwd=core.ROOT, env=env, capture_output=True, timeout=300)
    require(r.returncode == 0, "hash seed %s: the parser process fails: %s", seed, r.stderr.decode()[-500:])
    got = json.loads(r.stdout)
    want = {repr((t, c)): repr(REF[t, c]) for t in DUMP for c in range(len(CONFIGS))}
    for k in want:
        require(got[k] == want[k], "hash seed %s: %s gives\n  %s\nelsewhere\n  %s", seed, k, got[k], want[k])
    return {"obs": seed, "traces": len(want)}


DUMP = SIMILAR + [b for b in S.BASE if b not in SIMILAR]


def gather(ctx):
    for _, d in ctx.out:
        REF.update(d)


def C19(ctx):
    n = len(QUERIES)
    corpus = [S.layout(list(w), "spaced") for w in S.small_queries(*ctx.pick((4, 5), (5, 7)))]
    pre = [M.text_of(p) for p, _ in M.prefixes(3)]
    CORPUS.extend(dict.fromkeys(corpus + pre + S.BASE))
    similar = [(a, b) for a in SIMILAR for b in variants(a)]
    texts = list(dict.fromkeys(QUERIES + EXTREME + CORPUS + SIMILAR + [b for _, b in similar]))
    ctx.run("each query in a process of its own (reference)", c19_ref, texts, "every query used below x 4 configurations")
    gather(ctx)
    # every result is also what the model says, so the reference is not itself a leftover
    P = [("P", q, c) for q in range(n) for c in (0, 2)]
    ops = P + [("F", q, 0) for q in (0, 3, 6)] + [("V", q, 0) for q in range(n)] + [("L", q, 0) for q in (0, 4, 6, 7)] + [("M", 0, 0), ("E", 0, 0)] + [("D", q, 1) for q in (2, 3)]
    ctx.run("all pairs of calls, cold", c19_cold, list(itertools.product(ops, repeat=2)), f"depth 2 over {len(ops)} calls, each history in a new process")
    three = [("P", q, 0) for q in (0, 1, 4, 6, 7, 8, 10, 13)] + [("P", 2, 2), ("V", 14, 0), ("V", 7, 0), ("M", 0, 0), ("E", 0, 0), ("L", 6, 0)]
    ext = [("P", q, 0) for q in EXTREME] + ([("V", q, 0) for q in EXTREME] if ctx.thorough else [])
    near = ext + [("P", q, c) for q in range(n) for c in ctx.pick((0,), (0, 2))] + [("V", q, 0) for q in range(n)]
    ctx.run("extreme queries", c19_cold, [ctx.pick((a, b), (a, b, a)) for a in ext for b in ext] + [p for a in ext for b in near[len(ext):] for p in ctx.pick([(a, b)], [(a, b), (b, a), (a, b, a)])], f"pairs of {len(ext)} calls with extreme queries, and each of them with {len(near) - len(ext)} calls, each history in a new process", chunk=4)
    d = ctx.pick(3, 4)
    ctx.run("histories, cold", c19_cold, list(itertools.product(three, repeat=d)) if not ctx.thorough else list(itertools.product(three[:7] + three[-6:], repeat=d)), f"depth {d}, each history in a new process")
    d = ctx.pick(4, 5)
    four = [("P", 1, 0), ("P", 4, 0), ("P", 6, 0), ("P", 8, 0), ("V", 14, 0), ("M", 0, 0), ("E", 0, 0)]
    ctx.run("histories, warm", c19_warm, list(itertools.product(four, repeat=d)), f"depth {d} over {len(four)} calls")
    ctx.run("similar queries", c19_similar, [(a, b, c) for a, b in similar for c in range(3)], f"{len(similar)} pairs of queries that differ in little x 3 configurations")
    ctx.run("corpora", c19_corpus, [(lo, st, c) for c in range(4) for st in (1, 2, 3) for lo in range(st)], f"{len(CORPUS)} queries one after the other, twice")
    many = ctx.pick(2100, 20000)
    ctx.run("many different queries of a form", c19_family, [(f, c, many if c != "v" else many // 4) for f in range(len(FAMILIES)) for c in ctx.pick((0, 2, "v"), (0, 1, 2, 3, "v"))], f"{many} queries for each of {len(FAMILIES)} forms", chunk=1)
    reps = ctx.pick(130, 1100)
    small = [("P", 0, 0), ("P", 4, 0), ("P", 7, 0), ("P", 9, 0), ("V", 14, 0), ("M", 0, 0)]
    ctx.run("many repetitions", c19_repeat, [((a, b), reps) for a in small for b in small] + [((a,), m) for a in small for m in [ctx.pick(1100, 5000)]], f"pairs {reps} times, single calls more")
    ctx.run("hash seeds", c19_seed, list(range(ctx.pick(4, 16))), "PYTHONHASHSEED")
    ctx.run("interpreter options", c19_seed, [(("-O",), ()), (("-OO",), ()), (("-X", "dev"), ()), (("-W", "error"), ()), (("-bb", "-X", "faulthandler"), ()), (("-X", "frozen_modules=off", "-u", "-B"), (("PYTHONMALLOC", "debug"),)), (("-X", "utf8=0"), (("LC_ALL", "C"),)), ((), (("LC_ALL", "C.UTF-8"), ("TZ", "Asia/Kathmandu"), ("PYTHONINTMAXSTRDIGITS", "0")))] , "optimised, development mode, other locales")
    ctx.run("parses cut off at every instruction", c19_abort, [(q, c, i, ABORT_PARTS) for q in ctx.pick((1, 3, 4, 6, 7, 8), range(n)) if q != 13 for c in ctx.pick((0, 2), range(4)) for i in range(ABORT_PARTS)] + [(q, "v", i, ABORT_PARTS) for q in (6, 8, 14) for i in range(ABORT_PARTS)], "an exception at every instruction of the package that can touch more than its own frame; then the same parser and new ones", chunk=1)


# ---------------------------------------------------------------- C20
BASEDIR = os.path.join(boot.SRC, "fcsql") + os.sep
HAND = {BASEDIR + f for f in ("parser.py", "validation.py", "__init__.py")}
RUNTIME = os.sep + "antlr4" + os.sep




# instructions that only touch the frame they run in: a switch before one of these is the same as a switch
# before the next instruction
PRIVATE = {
    "CACHE", "COPY", "COPY_FREE_VARS", "EXTENDED_ARG", "END_FOR", "END_SEND", "JUMP_BACKWARD", "JUMP_FORWARD", "KW_NAMES", "LOAD_CONST",
    "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "LOAD_CLOSURE", "MAKE_CELL", "MAKE_FUNCTION", "NOP", "POP_EXCEPT", "POP_JUMP_IF_NONE",
    "POP_JUMP_IF_NOT_NONE", "POP_TOP", "PUSH_EXC_INFO", "PUSH_NULL", "RESUME", "RETURN_CONST", "RETURN_VALUE", "STORE_FAST", "SWAP", "UNARY_NOT",
    "IS_OP", "BUILD_TUPLE", "BUILD_LIST", "BUILD_SET", "BUILD_MAP", "BUILD_SLICE", "BUILD_STRING", "FORMAT_VALUE", "LIST_TO_TUPLE", "RERAISE",
}  # fmt: skip
MON = sys.monitoring
TOOL = 4
WHO = {}
_visible = {}
_watched = {}
_grain = [None]


def visible(code):
    r = _visible.get(code)
    if r is None:
        r = _visible[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname not in PRIVATE)
    return r


def codes():
    """code objects of the package and of the parsing runtime"""
    seen, todo = set(), []
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            c = f.__code__
            if c.co_filename.startswith(BASEDIR) or RUNTIME in c.co_filename:
                todo.append(c)
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    return seen


def here(*_):
    w = WHO.get(threading.get_ident())
    if w is not None:
        w[0].point(w[1])


def instruction(code, offset):
    if offset not in visible(code):
        return MON.DISABLE
    here()


def watch(grain):
    """points: every entry of a function of the package (call), and every instruction of its hand-written and
    every line of its generated modules (opcode); every entry of a function of the runtime (runtime), and every
    line of those that touch what parsers share (runtime-line)"""
    if _grain[0] == grain:
        return
    E = MON.events
    if _grain[0] is None:
        MON.use_tool_id(TOOL, "schedules")
        MON.register_callback(TOOL, E.PY_START, here)
        MON.register_callback(TOOL, E.LINE, here)
        MON.register_callback(TOOL, E.INSTRUCTION, instruction)
    for c in _watched:
        MON.set_local_events(TOOL, c, 0)
    _watched.clear()
    for c in codes():
        own = c.co_filename.startswith(BASEDIR)
        if grain == "call":
            ev = E.PY_START if own else 0
        elif grain == "opcode":
            ev = (E.INSTRUCTION if c.co_filename in HAND else E.PY_START | E.LINE) if own else 0
        elif grain == "runtime":
            ev = E.PY_START
        else:
            ev = E.PY_START | E.LINE if own or c.co_name in SHARED else 0
        if ev:
            MON.set_local_events(TOOL, c, ev)
            _watched[c] = ev
    _grain[0] = grain


def sleeping(t):
    """is the thread waiting for something (not only for a processor)?"""
    try:
        with open(f"/proc/self/task/{t.native_id}/stat") as f:
            return f.read().rpartition(")")[2].split()[0] == "S"
    except OSError:
        return False


class CutOff(BaseException):
    """stands for an interrupt, a timeout, an exhausted resource"""


class Abort:
    """raises at the k-th point"""

    def __init__(self, k):
        self.k, self.n = k, 0

    def point(self, _):
        self.n += 1
        if self.n == self.k + 1:
            raise CutOff


def cut_off(fn, k, grain="opcode"):
    """runs fn, cut off at its k-th point; the number of points seen, and whether it was cut off"""
    watch(grain)
    a = Abort(k)
    WHO[threading.get_ident()] = (a, 0)
    try:
        fn()
        done = True
    except CutOff:
        done = False
    except QueryParserException:
        done = True
    finally:
        WHO.pop(threading.get_ident(), None)
    return a.n, done


ABORT_PARTS = 8


def c19_abort(item):
    """a call cut off by an exception at any point leaves nothing behind"""
    q, c, part, parts = item
    text = QUERIES[q]
    if c == "v":
        call = lambda p: fcsql.validate(text, return_errors=True)  # noqa: E731
    else:
        call = lambda p: p.parse(text)  # noqa: E731
    cfg = 0 if c == "v" else c
    total, _ = cut_off(lambda: call(QueryParser(**CONFIGS[cfg])), -1)
    n = 0
    for k in range(part, total, parts):
        p = QueryParser(**CONFIGS[cfg])
        cut_off(lambda: call(p), k)
        for t, x in ((text, cfg), (QUERIES[1], cfg), (QUERIES[7], cfg)):
            for who in (p, QueryParser(**CONFIGS[x])):
                got = result(t, who)[0]
                require(got == REF[t, x], "%r cut off at point %d of %d, then %r with %s parser gives\n  %r\nin a new process\n  %r", text, k, total, t, "the same" if who is p else "a new", got, REF[t, x])
                n += 1
        got = ref_val(QUERIES[14])
        require(got == REF[QUERIES[14], "v"], "%r cut off at point %d of %d, then validating %r gives\n  %r\nin a new process\n  %r", text, k, total, QUERIES[14], got, REF[QUERIES[14], "v"])
        n += 1
    return {"obs": (item, total), "trans": n, "traces": n}


class Sched:
    """Runs thread bodies one at a time. plan: [(thread, number of points to pass or None)], then the
    unfinished threads in order. A thread that makes no progress (waits for a lock another one holds) loses
    its turn to the next one; that costs a switch and is never judged."""

    POLL = 0.006

    def __init__(self, bodies, plan, grain):
        self.bodies, self.plan, self.grain = bodies, list(plan), grain
        n = len(bodies)
        self.baton = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.out = [None] * n
        self.count = [0] * n
        self.turn = None
        self.left = None
        self.end = threading.Event()
        self.lock = threading.Lock()
        self.stalls = 0

    def point(self, i):
        self.count[i] += 1
        if self.turn != i:
            self.baton[i].acquire()
        elif self.left is not None:
            if self.left == 0:
                self.hand_over()
                if self.turn != i:
                    self.baton[i].acquire()
            else:
                self.left -= 1

    def hand_over(self):
        with self.lock:
            while self.plan:
                t, k = self.plan.pop(0)
                if not self.done[t]:
                    break
            else:
                rest = [t for t in range(len(self.done)) if not self.done[t]]
                if not rest:
                    self.turn = None
                    self.end.set()
                    return
                t, k = rest[0] if rest[0] != self.turn or len(rest) == 1 else rest[1], None
            prev, self.turn, self.left = self.turn, t, k
            if t != prev:
                self.baton[t].release()

    def main(self, i):
        self.baton[i].acquire()
        if self.bodies[i] is not _crowd:
            WHO[threading.get_ident()] = (self, i)
        try:
            self.out[i] = self.bodies[i]()
        except Violation as ex:
            self.out[i] = ("violation", str(ex))
        except BaseException as ex:  # noqa: B036
            self.out[i] = ("exception", type(ex).__name__, str(ex))
        finally:
            WHO.pop(threading.get_ident(), None)
            self.done[i] = True
            if self.turn == i:
                self.hand_over()

    def run(self):
        watch(self.grain)
        ts = [threading.Thread(target=self.main, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.hand_over()
        seen = None
        t0 = time.time()
        while not self.end.wait(self.POLL):
            cur = self.turn
            if cur is None:
                continue
            f = sys._current_frames().get(ts[cur].ident)
            now = (cur, id(f), f.f_lasti if f else 0, tuple(self.count))
            del f
            if now == seen and sleeping(ts[cur]):
                self.stalls += 1
                rest = [t for t in range(len(self.done)) if not self.done[t] and t != cur]
                if self.turn != cur:
                    pass
                elif self.done[cur]:
                    self.hand_over()
                elif rest:
                    with self.lock:
                        self.turn, self.left = rest[self.stalls % len(rest)], None
                        self.baton[self.turn].release()
            seen = now
            if time.time() - t0 > 30:
                raise Violation(f"threads {[i for i, d in enumerate(self.done) if not d]} never finish")
        for t in ts:
            t.join(5)
        return self.out


SHARED = set()


def _t_parse(text, **kw):
    def body():
        p = QueryParser(**kw)
        return result(text, p)[0]

    return body


def _t_reuse(texts):
    def body():
        p = QueryParser(enableSourceLocations=True)
        return [result(t, p)[0] for t in texts]

    return body


def _t_validate(text, **kw):
    def body():
        r = fcsql.validate(text, **kw)
        return r if isinstance(r, bool) else [impl.detail(e) for e in r]

    return body


def _t_validator(text, wae):
    def body():
        root = fcsql.parse(text)
        out = []
        for raising in (True, False):
            v = FCSQLValidator(raise_at_first_violation=raising, warnings_as_errors=wae, query=text)
            try:
                r = v.validate(root)
            except SpecificationValidationError as ex:
                r = (str(ex), ex.query_fragment, str(ex.node))
            out.append((r, [impl.detail(e) for e in v.errors], [impl.detail(e) for e in v.warnings], v.parent_node is None))
        return out

    return body


def _t_helpers(text):
    def body():
        return fcsql.can_parse(text), full(fcsql.parse(text)), fcsql.can_parse(text + "]"), full(fcsql.parse(text, enableSourceLocations=False)), fcsql.validate(text), fcsql.validate(text + "%")

    return body


def _t_print(text):
    def body():
        n = fcsql.parse(text)
        return str(n), [str(c) for c in impl.nodes(n)], [n.get_child(0) is n.get_first_child()]

    return body


BODIES = {
    "parse-a": _t_parse('"a\\n"/i', enableSourceLocations=True),
    "parse-b": _t_parse('[q:b!="e\u0301"]{2,3} "x"', enableSourceLocations=False, default_identifier="zz", default_operator=Operator.NOT_EQUALS, unicode_normalization_form="NFD"),
    "parse-c": _t_parse('("c" | [a="1" & !b="2"])+ within s', enableSourceLocations=True, default_identifier="yy"),
    "parse-d": _t_parse('"x" [] "y"', unicode_normalization_form=None, default_identifier="ww", default_operator=Operator.NOT_EQUALS),
    "syntax": _t_parse('"a" "b" ]', enableSourceLocations=True),
    "lexical": _t_parse('[a="b"]\n %', enableSourceLocations=True),
    "static": _t_parse('"a"{3,2}', enableSourceLocations=True),
    "flags": _t_parse('"a"/iI', enableSourceLocations=True),
    "reuse": _t_reuse(['"a" ]', '"b"', '"c" %']),
    "validate-list": _t_validate('[foo="x" & pos="y"]', return_errors=True, warnings_as_errors=True),
    "validate-bool": _t_validate('[word="x"]'),
    "validate-bad": _t_validate('"a" )', return_errors=True),
    "validator": _t_validator('[foo="x"] [word="y"]', True),
    "validator-b": _t_validator('([!bar="z"])', False),
    "helpers": _t_helpers('[a="b"]+'),
    "print": _t_print('"a" [b="c"/d]'),
    "table-a": _t_parse('"\\n\\x41\\.e"/i{2,} within s', enableSourceLocations=True),
    "table-b": _t_parse("[q:x!='\\t\\u0041\\*'/d]{,3} within text", enableSourceLocations=True),
}


def _everything():
    """a bit of everything, so that what it leaves behind anywhere is noticed by whom it interrupts"""
    out = [_t_reuse(['"r\\x41\\U0001f600\\t"/di', "'r\\u00e9' ]", "'q' %", '"r"{5,4}', '"r"/lC', '("r"+ | [rr:rrr!="r\\\\r"/d]{7,8} []){,9} within paragraph', "[!(r='1' & s='2' | t!='3')]"])()]
    out.append(BODIES["validate-list"]())
    root = QueryParser(enableSourceLocations=False, default_identifier="rr", default_operator=Operator.NOT_EQUALS, unicode_normalization_form="NFKD").parse('"\u00e9" ([pos="r"] [x-r:rr="r"])? [word="r"/c]')
    out += [full(root), fcsql.can_parse("'r'"), full(fcsql.parse('"r"', enableSourceLocations=False))]
    for raising in (True, False):
        v = FCSQLValidator(raise_at_first_violation=raising, allowed_layer_identifiers=["pos", "word"], allowed_layer_qualifiers=[("word", ["w"])], query="r" * 60)
        try:
            r = v.validate(root)
        except SpecificationValidationError as ex:
            r = (str(ex), ex.query_fragment, str(ex.node))
        out.append((r, [impl.detail(e) for e in v.errors], [impl.detail(e) for e in v.warnings]))
    return out


BODIES["everything"] = _everything
CROWD = itertools.count(1000)
CROWD_SIZE = 600


def _crowd():
    """(never interrupted) very many words, escapes, names, numbers never seen before, which push whatever is kept of earlier ones out of bounded caches"""
    k = next(CROWD)
    p = QueryParser()
    n = fcsql.parse(" ".join(f'"w{k}x{i}"' for i in range(CROWD_SIZE)))
    c = QueryParser().parse("".join(f"[n{k}-{i}='v{k}x{i}'/i]{{{i}}}" for i in range(40)))
    v = FCSQLValidator(raise_at_first_violation=False)
    r = v.validate(c)
    many = [result(f'"{chr(0x4E00 + (k * 7 + i) % 20000)}" "z{k}"', p)[0] for i in range(3)]
    return len(n.children), {type(x).__name__ for x in n.children}, [x.get_expression().regex == f"w{k}x{i}" for i, x in enumerate(n.children)].count(True), str(c).replace(str(k), "#"), r, len(v.errors), len(many)


BODIES["crowd"] = _crowd
SOLO = {}


def c20_solo(name):
    """outcome alone in a new process, and the number of points at each granularity"""
    out = {"value": in_fresh(BODIES[name])}
    for g in ("call", "opcode", "runtime", "runtime-line"):
        def count():
            s = Sched([BODIES[name]], [(0, None)], g)
            return s.run(), s.count

        got, n = in_fresh(count)
        require(got[0] == out["value"], "%s under the scheduler alone gives %r, directly %r", name, got[0], out["value"])
        out[g] = n[0]
    return {"out": (name, out), "obs": repr(out)}


def run_plan(names, plan, grain):
    s = Sched([BODIES[n] for n in names], plan, grain)
    got = s.run()
    for n, g in zip(names, got):
        require(g == SOLO[n]["value"], "threads %s, schedule %s at %s points: %s gives\n  %r\nalone\n  %r", "+".join(names), plan, grain, n, g, SOLO[n]["value"])
    return tuple(s.count), s.stalls


def c20_plans(item):
    """a block of schedules of the same threads; cold: each in a new process"""
    names, grain, cold, plans = item
    n = 0
    obs = set()
    for plan in plans:
        r = in_fresh(run_plan, names, plan, grain) if cold else run_plan(names, plan, grain)
        obs.add((plan, r[0]))
        n += 1
    return {"obs": (names, grain, cold, sorted(obs)), "trans": sum(sum(o[1]) for o in obs), "traces": n}


def c20_inside(item):
    """n threads: each up to its k-th call, then all to their ends in order or in reverse"""
    bodies, n, lifo, ks = item
    names = [bodies[i % len(bodies)] for i in range(n)]
    obs = set()
    for k in ks:
        plan = [(i, k) for i in range(n)] + [(i, None) for i in (reversed(range(n)) if lifo else range(n))]
        obs.add((k, run_plan(names, plan, "call")[0]))
    return {"obs": (item, sorted(obs)), "trans": sum(sum(o[1]) for o in obs), "traces": len(ks)}


def blocks(names, grain, cold, plans, size=40):
    return [(names, grain, cold, tuple(plans[i : i + size])) for i in range(0, len(plans), size)]


def one_preemption(a, b, grain):
    return [((0, k), (1, None)) for k in range(SOLO[a][grain] + 1)]


def two_preemptions(a, b, grain):
    """a up to k, b up to j, a to its end, b to its end"""
    return [((0, k), (1, j), (0, None)) for k in range(SOLO[a][grain] + 1) for j in range(SOLO[b][grain] + 1)]


def C20(ctx):
    import antlr4.atn.LexerATNSimulator
    import antlr4.atn.ParserATNSimulator
    import antlr4.PredictionContext

    SHARED.update(["addDFAState", "addDFAEdge", "addDFAEdge_", "computeTargetState", "getExistingTargetState", "computeStartState", "adaptivePredict", "getCachedPredictionContext", "getCachedContext", "add", "get", "setPrecedenceStartState", "execATN", "computeReachSet"])
    names = list(BODIES)
    ctx.run("each body alone", c20_solo, names, "in a new process, four granularities of points")
    for _, (n, o) in ctx.out:
        SOLO[n] = o
    if len(SOLO) < len(names):
        return
    ctx.extra["points"] = {n: {g: SOLO[n][g] for g in ("call", "opcode", "runtime", "runtime-line")} for n in names}
    few = ["parse-a", "parse-b", "syntax", "validate-list", "validator", "static"]
    items = []
    every = [n for n in names if n not in ("everything", "crowd")]
    for a in every:
        items += blocks((a, "everything"), "opcode", False, one_preemption(a, "everything", "opcode"))
    for a in ctx.pick(("table-a", "validate-list"), every):
        items += blocks((a, "crowd"), "opcode", False, one_preemption(a, "crowd", "opcode"))
    if ctx.thorough:
        for a in every:
            for b in every:
                items += blocks((a, b), "opcode", False, one_preemption(a, b, "opcode"))
    ctx.run("two threads, one preemption at every instruction", c20_plans, items, "every bytecode instruction of the hand-written modules that can touch more than its own frame, every line of the generated ones; warm caches", states=sum(len(i[3]) for i in items), chunk=1)
    items = []
    cold = few[:5] if not ctx.thorough else every
    for a in cold:
        for b in cold:
            items += blocks((a, b), "call" if not ctx.thorough else "opcode", True, one_preemption(a, b, "call" if not ctx.thorough else "opcode"))
    ctx.run("two threads, one preemption, cold caches", c20_plans, items, "every function call of the package, each schedule in a new process" if not ctx.thorough else "every instruction, each schedule in a new process", states=sum(len(i[3]) for i in items), chunk=1)
    if not ctx.thorough:
        items = []
        for a, b in (("table-a", "table-b"), ("static", "table-a"), ("validate-list", "validator-b"), ("lexical", "syntax")):
            items += blocks((a, b), "opcode", True, one_preemption(a, b, "opcode"))
        ctx.run("two threads, one preemption at every instruction, cold caches", c20_plans, items, "escapes, flags, bounds, scopes and tags used for the first time by both; each schedule in a new process", states=sum(len(i[3]) for i in items), chunk=1)
    rest = [(a, b) for a in every for b in every]
    items = []
    for a, b in rest:
        items += blocks((a, b), "call", False, one_preemption(a, b, "call"))
    ctx.run("all pairs of bodies, one preemption at every call", c20_plans, items, "every function call of the package", states=sum(len(i[3]) for i in items), chunk=1)
    items = []
    short = ["parse-a", "syntax", "static", "flags", "lexical", "validate-bad"]
    two = [(a, b) for a in short for b in short] + [("validator", "static")] + [(a, b) for a in few for b in few if ctx.thorough and not (a in short and b in short)]
    for a, b in two:
        items += blocks((a, b), "call", False, two_preemptions(a, b, "call"), 100)
    ctx.run("two threads, two preemptions", c20_plans, items, "every pair of function calls of the package", states=sum(len(i[3]) for i in items), chunk=1)
    items = []
    tri = [("flags", "static", "syntax")] if not ctx.thorough else [("parse-a", "parse-b", "syntax"), ("flags", "static", "lexical"), ("validator", "static", "validate-bad")]
    for t in tri:
        plans = [((0, k), (1, j), (2, None), (1, None)) for k in range(SOLO[t[0]]["call"] + 1) for j in range(SOLO[t[1]]["call"] + 1)]
        items += blocks(t, "call", False, plans, 100)
    ctx.run("three threads, nested preemptions", c20_plans, items, "every pair of function calls of the package", states=sum(len(i[3]) for i in items), chunk=1)
    items = []
    crowds = (("parse-c",), ("static", "parse-b"), ("validator",), ("syntax", "table-a", "validate-bool"))
    for bodies in crowds if not ctx.thorough else [(a,) for a in every] + list(crowds):
        for n in ctx.pick((5, 9, 17), (4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 65)):
            for lifo in (False, True):
                ks = list(range(1, max(SOLO[b]["call"] for b in bodies) + 1))
                items += [(bodies, n, lifo, tuple(ks[i : i + 10])) for i in range(0, len(ks), 10)]
    ctx.run("many threads inside at once", c20_inside, items, "up to %d threads stopped at the same function call, every one of them; then to the end, first or last one first" % ctx.pick(17, 65), states=sum(len(i[3]) for i in items), chunk=1)
    items = []
    g = ctx.pick("runtime", "runtime-line")
    rt = [("parse-d", "parse-d")] if not ctx.thorough else [(a, b) for a in ("parse-a", "parse-d", "syntax") for b in ("parse-a", "parse-d", "syntax")]
    for a, b in rt:
        items += blocks((a, b), g, True, one_preemption(a, b, g), 100)
    ctx.run("one preemption inside the parsing runtime, cold caches", c20_plans, items, ctx.pick("every function call of the runtime", "every line of the runtime functions that touch shared caches"), states=sum(len(i[3]) for i in items), chunk=1)
