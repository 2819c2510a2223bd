"""Stateless, exhaustive explorer over the real implementation.

A harness is a function body(ctx).  Every point of nondeterminism of the closed
system (an input shape, an operation, a parameter value, an environment answer)
is drawn with ctx.choose(label, options).  The explorer runs the body once for
every possible sequence of choices (depth first, no sampling), so "no violation"
means no execution in the bounded space violates the property.

The choice tree is cut into sub-trees ("shards", identified by a prefix of
choices) that are explored by forked workers.  An execution that violates the
property is replayed twice in fresh processes before it is reported; the choice
sequence is written to a replay file.
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

CPU_LIMIT_S = 100         # cpu seconds allowed for one single execution
SPLIT_LIMIT_S = 0.3     # cpu seconds an execution may take in the splitting pass
MAX_SAMPLES = 4


class Violation(Exception):
    def __init__(self, msg, detail=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class _Cut(Exception):
    """raised when the prefix-splitting pass has gone deep enough"""


class Prune(Exception):
    """the current choice sequence is not part of the quantified space"""


class Hang(BaseException):
    pass


class DivergenceError(Exception):
    """replaying a prefix met a different choice point: harness nondeterminism"""


def _h(obj):
    return hashlib.blake2b(repr(obj).encode("utf-8", "backslashreplace"), digest_size=8).digest()


class Ctx:
    def __init__(self, harness, tier, prefix, cut_depth=None, expect=None):
        self.harness = harness
        self.tier = tier
        self.thorough = tier == "thorough"
        self._prefix = prefix
        self._cut = cut_depth
        self._expect = expect            # expected (label, n) of the prefix points
        self.points = []                 # (label, n_options, index, repr(option))
        self.states = set()
        self.n_trans = 0
        self.n_validated = 0
        self.log = []
        self.outcome = None

    # -- nondeterminism -------------------------------------------------
    def choose(self, label, options):
        options = list(options)
        if not options:
            raise Prune()
        k = len(self.points)
        idx = self._prefix[k] if k < len(self._prefix) else 0
        if idx >= len(options):
            raise DivergenceError("choice %d (%s): index %d of %d" % (k, label, idx, len(options)))
        if self._expect is not None and k < len(self._expect):
            if self._expect[k] != (label, len(options)):
                raise DivergenceError("choice %d: %r where %r was met before" % (
                    k, (label, len(options)), self._expect[k]))
        opt = options[idx]
        self.points.append((label, len(options), idx, _short(opt)))
        if self._cut is not None and k + 1 >= self._cut:
            raise _Cut()
        return opt

    def flag(self, label):
        return self.choose(label, [False, True])

    def subset(self, label, items):
        return [it for i, it in enumerate(items) if self.choose("%s[%d]" % (label, i), [True, False])]

    # -- coverage -------------------------------------------------------
    def state(self, obj):
        """record a distinct (reference-comparable) state reached by this execution"""
        self.states.add(_h((self.harness, obj)))

    def step(self, note=None):
        """one call into the implementation"""
        self.n_trans += 1
        if note is not None:
            self.log.append(note)

    def validated(self):
        """an observation of the implementation was compared with the reference model"""
        self.n_validated += 1

    # -- oracle ---------------------------------------------------------
    def check(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, {k: _short(v, 2000) for k, v in detail.items()})

    def equal(self, got, want, msg):
        if got != want:
            raise Violation(msg, {"got": _short(got, 2000), "want": _short(want, 2000)})

    def close(self, got, want, msg, rel=1e-6, abs_=1e-7):
        if not is_close(got, want, rel, abs_):
            raise Violation(msg, {"got": _short(got, 2000), "want": _short(want, 2000)})

    def rejects(self, fn, msg, exc=Exception):
        self.step()
        try:
            r = fn()
        except exc:
            return
        raise Violation(msg, {"returned": _short(r)})

    def prune(self):
        raise Prune()


def is_close(got, want, rel=1e-6, abs_=1e-7):
    try:
        got = float(got)
        want = float(want)
    except (TypeError, ValueError):
        return got == want
    if got != got or want != want:
        return False
    if got == want:
        return True
    return abs(got - want) <= max(abs_, rel * max(abs(got), abs(want)))


def _short(o, n=400):
    if isinstance(o, dict):
        o = {(_short(k, 100) if not isinstance(k, (str, int, float)) else k): v for k, v in o.items()}
    try:
        r = o if isinstance(o, str) else repr(o)
    except Exception:
        r = "<%s>" % type(o).__name__
    return r if len(r) <= n else r[:n] + "..."


class Result:
    """outcome of one execution"""
    __slots__ = ("points", "violation", "cut", "long", "pruned", "states", "trans", "validated", "log", "outcome")


def _on_cpu(signum, frame):
    raise Hang()


def run_one(body, harness, tier, prefix, cut_depth=None, expect=None):
    ctx = Ctx(harness, tier, prefix, cut_depth, expect)
    r = Result()
    r.violation = None
    r.cut = r.pruned = r.long = False
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S if cut_depth is None else SPLIT_LIMIT_S)
    try:
        body(ctx)
    except _Cut:
        r.cut = True
    except Prune:
        r.pruned = True
    except Violation as v:
        r.violation = {"message": v.msg, "detail": v.detail}
    except DivergenceError:
        raise
    except Hang:
        r.long = True
        r.violation = {"message": "the execution did not finish within %d cpu seconds" % CPU_LIMIT_S, "detail": None}
    except (MemoryError, RecursionError) as e:
        r.violation = {"message": "the implementation ran out of resources: %r" % (e,), "detail": None}
    except Exception as e:
        r.violation = {"message": "unexpected %s on a valid use: %s" % (type(e).__name__, _short(str(e))),
                       "detail": {"traceback": traceback.format_exc()[-3000:]}}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    r.points = ctx.points
    r.states = ctx.states
    r.trans = ctx.n_trans + len(ctx.points)
    r.validated = ctx.n_validated
    r.log = ctx.log
    r.outcome = ctx.outcome
    return r


def _next_prefix(points, lo):
    """the next choice sequence in depth-first order, keeping the first lo choices"""
    i = len(points) - 1
    while i >= lo:
        label, n, idx, _ = points[i]
        if idx + 1 < n:
            return [p[2] for p in points[:i]] + [idx + 1], [(p[0], p[1]) for p in points[:i + 1]]
        i -= 1
    return None, None


def explore_shard(job):
    """all executions below one prefix"""
    body, harness, tier, prefix, deadline = job
    lo = len(prefix)
    cur, expect = list(prefix), None
    out = {"harness": harness, "prefix": list(prefix), "executions": 0, "pruned": 0, "states": set(), "trans": 0,
           "validated": 0, "violation": None, "samples": [], "capped": False, "outcomes": {}, "maxdepth": 0}
    while cur is not None:
        if time.time() > deadline or (_STOP is not None and _STOP.value and time.time() > _STOP.value):
            out["capped"] = True
            break
        r = run_one(body, harness, tier, cur, None, expect)
        out["executions"] += 1
        out["states"] |= r.states
        out["trans"] += r.trans
        out["validated"] += r.validated
        out["maxdepth"] = max(out["maxdepth"], len(r.points))
        if r.pruned:
            out["pruned"] += 1
        elif len(out["samples"]) < 1 and r.points:
            out["samples"].append([(p[0], p[3]) for p in r.points[:40]])
        if r.outcome is not None:
            k = _short(r.outcome, 80)
            if k in out["outcomes"] or len(out["outcomes"]) < 50:
                out["outcomes"][k] = out["outcomes"].get(k, 0) + 1
        if r.violation is not None:
            out["violation"] = {"harness": harness, "choices": [p[2] for p in r.points],
                                "labels": [(p[0], p[3]) for p in r.points], "shard": list(prefix),
                                "log": [_short(x) for x in r.log[-40:]], **r.violation}
            if _STOP is not None and not _STOP.value:
                _STOP.value = time.time() + 10      # others may still find a shorter one
            break
        cur, expect = _next_prefix(r.points, lo)
    return out


def split(body, harness, tier, target):
    """cut the choice tree into at least `target` sub-trees when it is deep enough"""
    jobs, long = [[]], set()
    for depth in range(1, 12):
        new, grew = [], False
        for pre in jobs:
            if len(pre) < depth - 1 or tuple(pre) in long:      # a complete execution already
                new.append(pre)
                continue
            cur = list(pre)
            while cur is not None:
                r = run_one(body, harness, tier, cur, depth, None)
                full = [p[2] for p in r.points]
                if r.long and len(full) < depth:        # what is below takes long and asks nothing early: left to the workers as it is
                    new.append(pre)
                    long.add(tuple(pre))
                    break
                if len(full) >= depth:
                    grew = True
                new.append(full[:depth])
                if len(r.points) <= len(pre):
                    break
                cur, _ = _next_prefix(r.points, len(pre))
        jobs = new
        if len(jobs) >= target or not grew:
            break
    return jobs


def _fresh(fn, arg):
    """run fn(arg) in a forked process and return its (pickled) result"""
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(1) as p:
        return p.apply(fn, (arg,))


def _replay_trace(job):
    body, harness, tier, choices = job
    r = run_one(body, harness, tier, choices)
    return {"points": [(p[0], p[1], p[2]) for p in r.points], "violation": r.violation,
            "labels": [(p[0], p[3]) for p in r.points]}


def run_harnesses(prop, harnesses, tier, budget_s=600, workers=None, only=None):
    """harnesses: list of (name, body).  Returns the merged coverage and violations."""
    deadline = time.time() + budget_s
    workers = workers or min(8, os.cpu_count() or 1)
    jobs, todo = [], []
    for name, body in harnesses:
        if only and name != only:
            continue
        todo.append((name, body))
    global _SPLIT
    _SPLIT = (todo, tier, workers * 6)
    if todo:
        with multiprocessing.get_context("fork").Pool(min(workers, len(todo))) as pool:
            for (name, body), pres in zip(todo, pool.map(_split_indexed, range(len(todo)), chunksize=1)):
                jobs += [(body, name, tier, pre, deadline) for pre in pres]
    tot = {"executions": 0, "pruned": 0, "states": set(), "transitions": 0, "validated": 0, "samples": [],
           "capped": False, "violations": [], "per_harness": {}, "shards": len(jobs)}
    global _JOBS, _STOP
    _JOBS = jobs
    _STOP = multiprocessing.get_context("fork").Value("d", 0.0)
    mp = multiprocessing.get_context("fork")
    with mp.Pool(workers, maxtasksperchild=None) as pool:
        for out in pool.imap_unordered(_run_indexed, range(len(jobs)), chunksize=1):
            h = tot["per_harness"].setdefault(out["harness"], {"executions": 0, "transitions": 0, "validated": 0,
                                                               "distinct_states": set(), "outcomes": {},
                                                               "max_choices": 0, "pruned": 0})
            h["executions"] += out["executions"] - out["pruned"]
            h["pruned"] += out["pruned"]
            h["transitions"] += out["trans"]
            h["validated"] += out["validated"]
            h["distinct_states"] |= out["states"]
            h["max_choices"] = max(h["max_choices"], out["maxdepth"])
            for k, v in out["outcomes"].items():
                if k in h["outcomes"] or len(h["outcomes"]) < 20:
                    h["outcomes"][k] = h["outcomes"].get(k, 0) + v
            tot["executions"] += out["executions"] - out["pruned"]
            tot["pruned"] += out["pruned"]
            tot["states"] |= out["states"]
            tot["transitions"] += out["trans"]
            tot["validated"] += out["validated"]
            tot["capped"] |= out["capped"]
            if out["violation"]:
                tot["violations"].append(out["violation"])
            if out["samples"] and "sample" not in h:
                h["sample"] = out["samples"][0]
    for name, h in tot["per_harness"].items():
        h["distinct_states"] = len(h["distinct_states"])
        if "sample" in h and len(tot["samples"]) < 12:
            tot["samples"].append({"harness": name, "choices": h.pop("sample")})
        h.pop("sample", None)
    return tot


_JOBS = None
_STOP = None
_SPLIT = None


def _split_indexed(i):
    todo, tier, target = _SPLIT
    return split(todo[i][1], todo[i][0], tier, target)


def _run_indexed(i):
    return explore_shard(_JOBS[i])


def confirm(harnesses, tier, v):
    """replay a violation twice in fresh processes; fall back on its whole shard"""
    global _STOP
    body = dict(harnesses)[v["harness"]]
    a = _fresh_call(_replay_trace, (body, v["harness"], tier, v["choices"]))
    b = _fresh_call(_replay_trace, (body, v["harness"], tier, v["choices"]))
    if a["violation"] and b["violation"]:
        v["replay_kind"] = "trace"
        v["stable"] = a["points"] == b["points"] and a["violation"]["message"] == b["violation"]["message"]
        v["message"] = a["violation"]["message"]
        v["detail"] = a["violation"]["detail"]
        return v
    _STOP = None
    c = _fresh_call(explore_shard, (body, v["harness"], tier, v["shard"], time.time() + 300))
    v["replay_kind"] = "shard"
    v["stable"] = bool(c["violation"])
    return v


_ARG = None


def _call_arg(_):
    fn, arg = _ARG
    return fn(arg)


def _fresh_call(fn, arg):
    global _ARG
    _ARG = (fn, arg)       # inherited by fork: nothing unpicklable is sent
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(1) as p:
        return p.apply(_call_arg, (0,))
