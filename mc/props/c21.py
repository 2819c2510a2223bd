"""C21 the optimisation loop: for every answer of the numerical solver

The solver (the environment) is replaced by a scripted one; every sequence of answers up to the bound is explored.  The rounds that take place
and the result that is taken are compared with a model of the loop; inside every round the problem handed to the solver (start, bounds, function,
constraints) is probed and compared with the reference evaluation under the strategies of the previous round.
"""
import logging
import sys
import numpy as np
import scipy.optimize
from evalref import *
from bfs import observe
import sidermit.optimization.optimizer as om
from sidermit.optimization.optimizer import Optimizer
from sidermit.exceptions import NoOptimalSolutionFoundException, OptimizerException

logging.disable(logging.CRITICAL)
DAY = 1 / 24.0
REAL_SOLVER = scipy.optimize.minimize


class Answer:
    def __init__(self, x, status, cv, fun, success=True):
        self.x, self.status, self.constr_violation, self.fun, self.success = np.array(x, dtype=float), status, cv, fun, success
        self.message = "scripted %d" % status
        self.nit = self.niter = 7
        self.nfev = 9
        self.execution_time = 0.1

    def __getitem__(self, k):
        return getattr(self, k)

    def get(self, k, default=None):
        return getattr(self, k, default)

    def __repr__(self):
        return "<x=%s status=%s cv=%s fun=%s>" % (list(self.x), self.status, self.constr_violation, self.fun)


class Solver:
    """stands in for scipy.optimize.minimize; `script(k)` draws the k-th answer, `probe(k, ...)` judges the problem"""

    def __init__(self, script, probe):
        self.script, self.probe, self.k = script, probe, 0
        self.asked = []

    def __call__(self, fun, x0, *a, **kw):
        self.probe(self.k, fun, x0, a, kw)
        ans = self.script(self.k)
        self.asked.append(ans)
        self.k += 1
        return ans

    def __enter__(self):
        # under whatever name a module of the system knows the solver
        ms = [scipy.optimize] + [m for k, m in sorted(sys.modules.items()) if k.split(".")[0] == "sidermit"]
        self.old = [(m, k, v) for m in ms for k, v in list(vars(m).items()) if v is REAL_SOLVER]
        for m, k, _ in self.old:
            setattr(m, k, self)
        return self

    def __exit__(self, *e):
        for m, k, f in self.old:
            setattr(m, k, f)


def is_valid(a):
    return a.status in (1, 2) and abs(a.constr_violation) < 0.001 and all(v >= 0 for v in a.x)


def rounds(start, answers, tol, limit):
    """number of rounds the loop runs, given an endless list of answers"""
    prev = start
    n = 0
    for a in answers:
        n += 1
        if sum(abs(p - q) for p, q in zip(prev, a.x)) < tol:
            break
        if limit is not None and n > limit:
            break
        prev = list(a.x)
    return n


def limits_of(kw, args):
    """constraint values at x and their bounds, however they are handed over"""
    c = kw.get("constraints")
    cs = list(c) if isinstance(c, (list, tuple)) else [c]
    return cs


def judge_problem(ctx, w, ps, trips, fstrat, given, fun, x0, a, kw, what):
    ctx.equal([float(v) for v in x0], [float(ln.mode.fini) for ln in w.lines], "frequencies the solver starts from (%s)" % what)
    b = kw.get("bounds")
    ctx.check(b is not None, "the solver is not told that frequencies are not negative (%s)" % what)
    if hasattr(b, "lb"):
        lo = np.broadcast_to(np.asarray(b.lb, dtype=float), (len(w.lines),))
        hi = np.broadcast_to(np.asarray(b.ub, dtype=float), (len(w.lines),))
    else:
        lo = np.array([-np.inf if q[0] is None else q[0] for q in b], dtype=float)
        hi = np.array([np.inf if q[1] is None else q[1] for q in b], dtype=float)
    ctx.check(len(lo) == len(w.lines) and all(v == 0 for v in lo) and all(v == np.inf for v in hi), "bounds of the frequencies (%s)" % what,
              lower=list(lo), upper=list(hi))
    r = Run(w, given, ps, trips)
    for x in ([12.0, 5.0, 9.0], [31.0, 80.0, 2.5]):
        f = w.freqs(x)
        x = vector(w, f)
        for ln in w.lines:              # a line that does not run in the strategies is not evaluated
            if fstrat[ln.id] == 0:
                f[ln.id] = 0.0
        x = np.array(vector(w, f))
        ev = Eval(w, r, f)
        ctx.close(float(fun(x)), ev.VRC, "function handed to the solver (%s)" % what)
        got = []
        for c in limits_of(kw, a):
            if isinstance(c, dict):
                got += [(-v if c["type"] == "ineq" else v, 0.0) for v in np.atleast_1d(c["fun"](x))]
            else:
                vals = np.atleast_1d(np.asarray(c.fun(x), dtype=float))
                ub = np.broadcast_to(np.asarray(c.ub, dtype=float), vals.shape)
                lb = np.broadcast_to(np.asarray(c.lb, dtype=float), vals.shape)
                ctx.check(all(v == -np.inf for v in lb), "constraints with a lower limit (%s)" % what)
                got += list(zip(vals, ub))
        want = sorted(ev.con)
        have = sorted(v - u for v, u in got)
        ctx.check(len(have) == len(want) and all(is_close(p, q, abs_=1e-6) for p, q in zip(have, want)),
                  "constraints handed to the solver (%s)" % what, got=have, want=want)


NETS = {"two": ([("radial1", 0), ("dia", 1)], {("P1", "C"): 100.0, ("S1", "C"): 20.0}),
        "three": ([("radial1", 0), ("loop-back", 0), ("dia-short", 1)], {("P1", "C"): 90.0, ("S1", "S2"): 10.0})}


def setting(ctx, name):
    lines, trips = NETS[name]
    ms = [bus_(fini=28.0), metro_(fini=20.0)]
    w = World(city(2, shape="ids"), [(x, ms[i]) for x, i in lines])
    return w, trips


def start_of(w):
    return [ln.mode.fini for ln in w.lines]


def run(ctx, w, trips, given, tol, limit, script, deep, full=True, via="network"):
    ps = passenger()
    d = demand(w, trips)
    used = []

    def probe(k, fun, x0, a, kw):
        ctx.check(k < 25, "the loop does not end")
        if deep:
            if k == 0:
                g = given
                fs = given if given is not None else w.freqs(start_of(w))
            else:
                g = fs = w.freqs(list(used[-1].x))
            judge_problem(ctx, w, ps, trips, fs, g, fun, x0, a, kw, "round %d" % k)

    def draw(k):
        a = script(k, list(used[-1].x) if used else start_of(w))
        used.append(a)
        return a

    before = observe([w.g, w.net, ps, d, sorted((given or {}).items()), given is None])
    exc = opt = None
    with Solver(draw, probe) as s:
        try:
            if via == "network":
                opt = Optimizer.network_optimization(w.g, d, ps, w.net, given, tol, limit)
                res = opt.get_optimization_value()
            else:
                res = Optimizer.external_optimization(w.g, d, ps, w.net, given, tol, limit)
        except OptimizerException as e:
            exc = e
    what = "answers %s, tolerance %s, limit %s" % (used, tol, limit)
    ctx.step(what)
    ctx.equal(len(used), rounds(start_of(w), used + [Answer(used[-1].x + 50, 1, 0, 0)] * 20, tol, limit), "number of rounds (%s)" % what)
    ok = [a for a in used if is_valid(a)]
    if not ok:
        ctx.check(isinstance(exc, NoOptimalSolutionFoundException), "no round is valid, and no exception says so (%s)" % what,
                  exception=repr(exc), result=None if exc else res)
        ctx.outcome = "no solution after %d" % len(used)
    else:
        ctx.check(exc is None, "a valid round exists, and the optimisation fails (%s)" % what, exception=repr(exc))
        best = min(a.fun for a in ok)
        cand = []
        for a in ok:
            if a.fun == best:
                cand.append(([0.0 if v < DAY else float(v) for v in a.x], a.success, a.status, a.message, a.constr_violation, a.fun))
        got = ([float(v) for v in res[0]],) + tuple(res[1:])
        ctx.check(any(got == c for c in cand), "the result is not the best valid round (%s)" % what, got=got, want=cand)
        if opt is not None:
            txt = opt.string_network_optimization(res)
            for ln, v in zip(w.net.get_routes(), got[0]):
                ctx.check("%s: %.2f" % (ln.id, v) in txt, "frequency of %s in the summary" % ln.id, text=txt)
        ctx.outcome = "solution of round %s of %d" % ([used.index(a) + 1 for a in ok if a.fun == best][0], len(used))
    ctx.check(observe([w.g, w.net, ps, d, sorted((given or {}).items()), given is None]) == before, "the optimisation changed its inputs")
    ctx.validated()
    return used


# answers: what the solver reports besides the frequencies
VERDICTS = {"best": (1, 0.0, 100.0), "good": (2, 0.0005, 200.0), "good'": (1, -0.0005, 200.0), "poor": (1, 0.00099, 300.0), "out of time": (0, 0.0, 50.0),
            "stopped": (3, 0.0, 60.0), "infeasible": (2, 0.00101, 70.0), "very infeasible": (1, 5.0, 40.0), "negative cost": (2, 0.0, -10.0),
            "below zero": (1, -2.0, 20.0)}


def selection(ctx):
    """all sequences of verdicts"""
    w, trips = setting(ctx, "two")
    limit = ctx.choose("limit", [2, 0, 1, 3] if ctx.thorough else [2, 0, 1])
    names = list(VERDICTS)

    def script(k, prev):
        v = VERDICTS[ctx.choose("answer %d" % k, names)]
        far = [[30.0, 12.0], [18.0, 25.0], [7.0, 41.0], [22.0, 3.0]][k]
        return Answer(far, v[0], v[1], v[2], success=v[0] in (1, 2))
    used = run(ctx, w, trips, None, 0.01, limit, script, deep=False, via=ctx.choose("via", ["network", "external"]) if limit == 1 else "network")
    ctx.state((limit, [(a.status, a.constr_violation, a.fun) for a in used]))


def convergence(ctx):
    """all sequences of moves around the tolerance"""
    w, trips = setting(ctx, "two")
    tol = ctx.choose("tolerance", [0.01, 1.0, 0])
    limit = ctx.choose("limit", [None, 2])
    moves = {"far": [9.0, -4.0], "up": [9.0, 9.0], "opposite": [-2.0, 2.0], "just over": [tol * 0.7, -tol * 0.4], "just under": [tol * 0.5, -tol * 0.4],
             "one line": [0.0, tol * 1.2], "still": [0.0, 0.0]}
    given = ctx.choose("given", [None, [28.5, 19.0]])

    def script(k, prev):
        if k >= 3 and (limit is None or tol == 0):
            mv = [0.0, 0.0]
            if tol == 0:
                ctx.prune()
        else:
            mv = moves[ctx.choose("move %d" % k, list(moves))]
        return Answer([p + q for p, q in zip(prev, mv)], 1, 0.0, 100.0 - k)
    used = run(ctx, w, trips, None if given is None else w.freqs(given), tol, limit, script, deep=False)
    ctx.state((tol, limit, [list(a.x) for a in used]))


def many(ctx):
    """optimisations of many rounds: the best one may be any of them, and any of them may be invalid"""
    w, trips = setting(ctx, ctx.choose("network", ["two", "three"]))
    limit = ctx.choose("limit", [4, 8] if not ctx.thorough else [4, 5, 8, 9])
    end = ctx.choose("last round", list(range(1, limit + 2)))
    best = ctx.choose("best round", list(range(end)))
    bad = ctx.choose("invalid rounds", ["none", "before", "after", "all but it", "it", "every other"])

    def script(k, prev):
        ok = {"none": True, "before": k >= best, "after": k <= best, "all but it": k == best, "it": k != best, "every other": k % 2 == best % 2}[bad]
        x = [30.0 + 2 * k, 12.0 + k, 20.0 - k][:len(w.lines)] if k < end - 1 or end > limit else list(prev)
        return Answer(x, 1 if ok else 3, 0.0, 50.0 if k == best else 100.0 + (k * 7) % 11)
    used = run(ctx, w, trips, None, 0.01, limit, script, deep=False, via=ctx.choose("via", ["network", "external"]))
    ctx.state((limit, end, best, bad))


def dozen(ctx):
    """networks of more lines, of which only some move from round to round"""
    k = ctx.choose("lines", [8, 13])
    md = bus_(fini=28.0)
    w = World(city(2, shape="ids"), [(("radial1", "dia", "radial2")[i % 3], md) for i in range(k)], ["l%d" % i for i in range(k)])
    tol = ctx.choose("tolerance", [0.01, 1.0])
    limit = ctx.choose("limit", [None, 3])
    one = lambda at, d: [d if i == at else 0.0 for i in range(k)]
    moves = {"first": one(0, 3.0), "last": one(k - 1, -3.0), "middle": one(k // 2, 3.0), "all over": [tol * 1.05 / k * (-1) ** i for i in range(k)],
             "all under": [tol * 0.95 / k * (-1) ** i for i in range(k)], "last over": one(k - 1, tol * 1.01), "last under": one(k - 1, -tol * 0.98), "still": [0.0] * k}

    def script(i, prev):
        mv = moves[ctx.choose("move %d" % i, list(moves))] if i < 3 else [0.0] * k
        return Answer([p + q for p, q in zip(prev, mv)], 1 if i != 1 else 2, 0.0, 100.0 - (i * 5) % 7)
    used = run(ctx, w, {("P1", "P2"): 50.0, ("P2", "C"): 9.0}, None, tol, limit, script, deep=False, via="network" if k == 8 else "external")
    ctx.state((k, tol, limit, [list(a.x) for a in used]))


def small(ctx):
    """all frequency vectors around zero and one vehicle a day, in every round"""
    name = ctx.choose("network", ["two", "three"])
    w, trips = setting(ctx, name)
    vals = [0.0, DAY * 0.99, DAY * 1.01, 6.0, -1e-6, 1e-9]
    n = len(w.lines)

    def script(k, prev):
        if ctx.choose("round %d" % k, ["vector", "ordinary"] if k < 2 else ["ordinary"]) == "ordinary":
            return Answer([30.0 - 3 * k + i for i in range(n)], 1, 0.0, 90.0)
        last = True
        x = [ctx.choose("f%d" % i, vals) for i in range(n)]
        if min(x) < 0 and k < limit:
            ctx.prune()
        if k < limit and (x[0] == 0 and x[1] == 0):
            ctx.prune()
        if k < limit and name == "three" and (x[2] == 0 or x[1] == 0):
            ctx.prune()
        return Answer(x, 1, 0.0, 80.0 - k)
    limit = ctx.choose("limit", [0, 1] if ctx.thorough or name == "two" else [0])
    used = run(ctx, w, trips, None, 0.01, limit, script, deep=False)
    ctx.state((name, limit, [list(a.x) for a in used]))


def problems(ctx):
    """the problem handed to the solver in every round"""
    name = ctx.choose("network", list(NETS))
    w, trips = setting(ctx, name)
    gv = [None, [4.0, 50.0, 11.0], [60.0, 0.0, 45.0] if name == "two" else [60.0, 1.5, 45.0], [0.0, 9.0, 30.0]]
    given = ctx.choose("given", gv)
    xs = [[30.0, 12.0, 3.0], [1.0, 60.0, 8.0], [0.0, 7.0, 21.0], [90.0, 0.25, 0.5]]

    def script(k, prev):
        x = ctx.choose("answer %d" % k, xs)[:len(w.lines)]
        return Answer(x, ctx.choose("status %d" % k, [1, 0]) if k < 2 else 1, 0.0, 100.0 + k)
    used = run(ctx, w, trips, None if given is None else w.freqs(given), 0.01, 2, script, deep=True)
    ctx.state((name, given, [list(a.x) for a in used]))


def after(ctx):
    """reports of an optimised network: the result that was taken is what is reported"""
    w, trips = setting(ctx, "two")
    xs = [[30.0, 12.0], [0.02, 60.0], [3.0, 0.04]]
    ans = []

    def script(k, prev):
        return Answer(ctx.choose("answer %d" % k, xs), 1, 0.0, ctx.choose("value %d" % k, [100.0, 200.0]))
    ps = passenger()
    d = demand(w, trips)
    got = []
    with Solver(lambda k: (got.append(script(k, None)) or got[-1]), lambda *a: None):
        opt = Optimizer.network_optimization(w.g, d, ps, w.net, max_number_of_iteration=1)
    ctx.step()
    x = [float(v) for v in opt.get_optimization_value()[0]]
    f = w.freqs(x)
    ev = Eval(w, Run(w, f, ps, trips), f)
    rows = opt.get_network_results()
    for row in rows:
        ctx.close(row[1], f[row[0]], "frequency reported for %s" % row[0])
        ctx.close(row[3], ev.k[row[0]] if f[row[0]] else 0, "vehicle size reported for %s" % row[0])
    ctx.close(opt.get_overall_results()["VRC"], ev.VRC / sum(trips.values()), "total cost reported")
    ctx.state([list(a.x) + [a.fun] for a in got])
    ctx.validated()


HARNESSES = [("selection", selection), ("convergence", convergence), ("many rounds", many), ("more lines", dozen), ("small frequencies", small), ("problems", problems), ("reports", after)]
BOUNDS = {"quick": "every sequence of 3 moves of 8 or 13 lines over 8 kinds; every sequence of up to 3 solver answers over 10 verdicts; every sequence of 3-4 moves over 7 distances x 3 tolerances x 2 limits; every position of the best and of invalid rounds in up to 10 rounds; every vector "
                   "over 6 critical frequencies in 2-line and 3-line networks; every problem of 3 rounds over 4 answers x 2 verdicts x 4 starting points",
          "thorough": "4 answers"}
ASSUMPTIONS = ["the numerical solver is the environment: any answer is possible, how it finds it is not judged",
               "a line that the optimisation leaves without service is not evaluated at a positive frequency under the same strategies",
               "an intermediate answer with negative frequencies, or that leaves demand without service, is outside the contract"]
