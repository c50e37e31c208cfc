"""Exploration runner: exhaustive evaluation of an item space in a forked worker pool, evidence,
violation artefacts and replay.

A check module defines functions ``f(item) -> result`` where ``item`` is a literal (``ast.literal_eval``
of its repr gives it back) and the result is ``None`` (held), or a ``dict`` with any of
    bad:     str    -> the property is violated on this item (explanation)
    obs:     any hashable -> observed outcome, counted for distinctness
    trans:   int    -> model transitions / steps executed by this item
    traces:  int    -> executions of the real code compared with the model
"""
import ast
import concurrent.futures as cf
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("MC_EVIDENCE", os.path.join(ROOT, "evidence"))
CASE_TIMEOUT = 60
# On a machine much slower than expected the quick tier stops after this long with what it has explored; the
# evidence then says so (a space with fewer items evaluated than listed, "exhaustive" false).
QUICK_BUDGET = 780
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or max(2, os.cpu_count() or 2)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Violation(Exception):
    """Raised by item functions: the property is broken."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + f"... [{len(s)} chars]"


def eval_item(func, item, timeout=None, again=False):
    """Evaluate one item; always returns a result dict. Any exception escaping from the code under test
    is a violation: item functions only call documented API with documented arguments."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or CASE_TIMEOUT)
    try:
        r = func(item) or {}
    except Violation as ex:
        r = {"bad": str(ex)}
    except CaseTimeout:
        if not again:  # a stalled machine is not a hanging parser: the same item has a second chance
            return eval_item(func, item, timeout, True)
        r = {"bad": f"no answer within {timeout or CASE_TIMEOUT}s, twice"}
    except MemoryError:
        r = {"bad": "ran out of memory"}
    except Exception:
        r = {"bad": "unexpected exception from the code under test:\n" + traceback.format_exc(limit=-6)}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


_W = {}


def _winit():
    sys.stdout = Null()
    sys.stderr = Null()
    sys.setrecursionlimit(1000)
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass


def _wchunk(args):
    lo, hi = args
    func, items = _W["func"], _W["items"]
    res = {"n": 0, "trans": 0, "traces": 0, "obs": set(), "bad": None, "out": []}
    for i in range(lo, hi):
        if _W.get("until") and time.time() > _W["until"]:
            break
        r = eval_item(func, items[i])
        res["n"] += 1
        res["trans"] += r.get("trans", 0)
        res["traces"] += r.get("traces", 1)
        if "out" in r:
            res["out"].append((i, r["out"]))
        if "obs" in r:
            res["obs"].add(zlib.crc32(repr(r["obs"]).encode("utf-8", "surrogatepass")))
        if r.get("bad"):
            res["bad"] = (i, r["bad"])
            break
    return res


def _confirm(conn, func, items, idxs):
    _winit()
    last = {}
    for i in idxs:
        last = eval_item(func, items[i])
    conn.send(last.get("bad"))
    conn.close()


def confirm_fresh(func, items, idxs):
    """Re-run the items in a fresh forked process; returns the verdict on the last one."""
    a, b = mp.Pipe()
    p = mp.Process(target=_confirm, args=(b, func, items, idxs))
    p.start()
    b.close()
    try:
        r = a.recv()
    except EOFError:
        r = "worker died"
    p.join()
    return r


class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.spaces = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.obs = set()
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.violation = None
        self.known = []
        self.out = []
        self.cut = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, label, func, items, bound="", states=None, chunk=None, model=False):
        """Evaluate func on every item. Returns False after a violation."""
        if self.violation:
            return False
        items = list(items)
        n = len(items)
        t = time.time()
        if not n:
            self.spaces.append({"space": label, "items": 0, "bound": bound})
            return True
        chunk = chunk or max(1, min(400, n // (WORKERS * 8) or 1))
        _W["func"], _W["items"] = func, items
        _W["until"] = None if self.thorough else self.t0 + QUICK_BUDGET
        chunks = [(i, min(n, i + chunk)) for i in range(0, n, chunk)]
        try:
            tot, obs, bad = self._pool(chunks, WORKERS)
        except cf.process.BrokenProcessPool:
            try:
                tot, obs, bad = self._pool(chunks, max(1, WORKERS // 2))
            except cf.process.BrokenProcessPool:
                self.violate(label, "the process that runs the items dies (twice)")
                return False
        self.cut |= tot["n"] < n and not bad
        self.evals += tot["n"]
        self.traces += tot["traces"]
        self.transitions += tot["trans"]
        self.states += len(obs) if states is None else states
        self.obs |= obs
        for i in sorted({0, n // 2, n - 1}):
            if len(self.samples) < 24:
                self.samples.append({"space": label, "item": short(repr(items[i]), 300)})
        self.spaces.append(
            {
                "space": label,
                "items": n,
                "evaluated": tot["n"],
                "executions_of_real_code": tot["traces"],
                "distinct_outcomes": len(obs),
                "bound": bound,
                "seconds": round(time.time() - t, 2),
            }
        )
        if bad:
            c, (i, msg) = bad
            again = confirm_fresh(func, items, [i])
            history = [i]
            if not again:
                again = confirm_fresh(func, items, list(range(c[0], i + 1)))
                history = list(range(c[0], i + 1))
                msg += "\n(only after the preceding items of the history)" if again else "\n(not reproduced on re-run)"
            self.violate(label, msg, func, [items[k] for k in history])
            return False
        return True

    def _pool(self, chunks, workers):
        tot = {"n": 0, "trans": 0, "traces": 0}
        obs = set()
        self.out = []
        with cf.ProcessPoolExecutor(
            min(workers, len(chunks)), mp_context=mp.get_context("fork"), initializer=_winit
        ) as ex:
            futs = [ex.submit(_wchunk, c) for c in chunks]
            for c, f in zip(chunks, futs):
                r = f.result()
                for k in tot:
                    tot[k] += r[k]
                obs |= r["obs"]
                self.out += r["out"]
                if r["bad"]:
                    for g in futs:
                        g.cancel()
                    return tot, obs, (c, r["bad"])
        return tot, obs, None

    def violate(self, label, msg, func=None, items=()):
        self.violation = {
            "property": self.pid,
            "space": label,
            "explanation": msg,
            "module": func.__module__ if func else None,
            "function": func.__name__ if func else None,
            "items": [repr(i) for i in items],
        }

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        cov = {
            "spaces": self.spaces,
            "samples": self.samples,
            "exhaustive": self.violation is None and not self.cut,
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.obs),
            "rule": "items are enumerated completely within the stated bound of each space; distinct_nontrivial "
            "counts different observed outcomes (trees, token lists, verdicts) of the real code",
        }
        if self.level == "model_checking":
            cov.update(
                states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces
            )
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": 1 if self.violation else 0,
        }
        tmp = os.path.join(EVID, f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        os.replace(tmp, os.path.join(EVID, f"{self.pid}.json"))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for s in self.spaces:
            print("  " + " ".join(f"{k}={v}" for k, v in s.items()))
        print(
            f"{self.pid} tier={self.tier} states={self.states} transitions={self.transitions} "
            f"executions={self.traces} distinct_outcomes={len(self.obs)} wall={wall:.1f}s"
        )
        if self.violation:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump(self.violation, f, indent=1, ensure_ascii=True)
            print("explanation: " + self.violation["explanation"].encode("ascii", "backslashreplace").decode())
            print("item: " + short((self.violation["items"] or [""])[-1], 1000))
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        return 0


def replay(path):
    """Replay a recorded violation without the explorer: python -m mc.replay FILE"""
    v = json.load(open(path))
    if not v.get("function"):
        print(v["explanation"])
        return 1
    func = getattr(importlib.import_module(v["module"]), v["function"])
    r = {}
    for it in v["items"]:
        r = eval_item(func, ast.literal_eval(it))
    print("item:", ascii(v["items"][-1]))
    print("verdict:", ascii(r.get("bad")) if r.get("bad") else "held")
    return 1 if r.get("bad") else 0
