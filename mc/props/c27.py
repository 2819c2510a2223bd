"""C27 what the optimisation finds with the real solver: feasible, and no frequencies on a grid are cheaper

The solver runs for real; the answers it gives are recorded at its boundary, so that the round a result comes from, and with it the strategies it is
optimal for, are known.  The oracle is exhaustive enumeration: every frequency vector of a grid around the result and of a coarse grid over the whole range."""
import itertools
import logging
import warnings
from evalref import *
from bfs import observe
from c21 import Solver, is_valid, rounds, DAY
import c21
import scipy.optimize
from sidermit.optimization.optimizer import Optimizer
from sidermit.exceptions import OptimizerException, NoOptimalSolutionFoundException

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
SLACK = 0.002
_minimize = scipy.optimize.minimize

SYSTEMS = dict({"only " + x: [(x, 0)] for x in ("radial1", "dia", "loop-back", "return-express", "dia-skipC", "reversed")},
               **{x: NETWORKS[x] for x in ("radial", "express", "asymmetric", "loops", "outbound-skips", "ring", "feeder+dia", "feeder+ring", "metro ring", "skipping",
                                           "return-express", "loop-skip", "competing", "two dia", "tan", "reversed")})
MODES = {"plain": {}, "small vehicles": dict(bus=dict(kmax=25.0), metro=dict(kmax=60.0)), "narrow stops": dict(bus=dict(fmax=3.5, d=1, kmax=400.0), metro=dict(fmax=2.0)),
         # so dear that less than one vehicle an hour is best
         "dear vehicles": dict(bus=dict(co=9000.0, c1=10.0, kmax=9e4), metro=dict(co=9000.0, kmax=9e4))}
FINE = (0.9, 0.97, 1.0, 1.03, 1.1)
COARSE = (0.5, 1.5, 4.0, 9.0, 16.0, 28.0, 60.0, 130.0)


class Real(Solver):
    """the real solver, with a record of what it was asked and answered"""

    def __init__(self):
        self.starts, self.asked = [], []

    def __call__(self, fun, x0, *a, **kw):
        self.starts.append([float(v) for v in x0])
        ans = _minimize(fun, x0, *a, **kw)
        self.asked.append(ans)
        return ans


def optimise(w, trips, ps, given, limit):
    with Real() as s:
        try:
            opt = Optimizer.network_optimization(w.g, demand(w, trips), ps, w.net, given, 0.01, limit)
            return s.asked, opt.get_optimization_value(), opt
        except OptimizerException as e:
            return s.asked, e, None


def body(ctx):
    name = ctx.choose("system", list(SYSTEMS))
    mk = ctx.choose("modes", list(MODES) if ctx.thorough or name.startswith("only") else list(MODES)[:3])
    ms = [bus_(**dict(dict(tat=0.3), **MODES[mk].get("bus", {}))), metro_(**dict(dict(fini=28.0), **MODES[mk].get("metro", {})))]
    w = World(city(3, shape="ids"), [(x, ms[i]) for x, i in SYSTEMS[name]])
    dm = ctx.choose("demand", ["radial", "mixed", "all"])
    given = ctx.choose("given", [None, "uneven"] if ctx.thorough or len(w.lines) <= 2 else [None])
    given = w.freqs([6.0, 40.0, 15.0, 9.0, 21.0]) if given else None
    ps = passenger(**PSETS[ctx.choose("passenger", ["default", "patient"] if ctx.thorough else ["default"])])
    start = w.freqs([ln.mode.fini for ln in w.lines])
    trips = trips_of(w, dm, start, ps)
    if not trips:
        ctx.prune()
    trips = {k: v * (6.0 if mk in ("small vehicles", "narrow stops") else 1.0) for k, v in trips.items()}
    found(ctx, w, trips, ps, given, mk, name.startswith("only"), "%s %s %s" % (name, mk, dm))


def found(ctx, w, trips, ps, given, mk, single, what):
    start = w.freqs([ln.mode.fini for ln in w.lines])
    limit = 1
    before = observe([w.g, w.net, ps, sorted((given or {}).items())])
    asked, res, opt = optimise(w, trips, ps, given, limit)
    ctx.step(what)
    ctx.state((what, given is None))
    ctx.check(observe([w.g, w.net, ps, sorted((given or {}).items())]) == before, "the optimisation changed its inputs (%s)" % what)
    ctx.check(1 <= len(asked) <= 1 + limit, "number of rounds (%s)" % what, rounds=len(asked))
    ok = [i for i, a in enumerate(asked) if is_valid(a)]
    if opt is None:
        ctx.check(not ok and isinstance(res, NoOptimalSolutionFoundException), "the optimisation failed although a round found a solution (%s)" % what, exception=repr(res),
                  answers=[(list(a.x), a.status, a.constr_violation) for a in asked])
        ctx.outcome = "no solution"
        if single:
            o = Optimizer(w.g, demand(w, trips), ps, w.net, given)
            x = [ln.mode.fini for ln in w.lines]
            ctx.check(max(o.get_constrains(x)) > 0, "no solution, although the initial frequency is feasible (%s)" % what,
                      answers=[(list(a.x), a.status, a.constr_violation) for a in asked])
        ctx.validated()
        return
    ctx.check(ok, "a result although no round was valid (%s)" % what)
    i = min(ok, key=lambda j: asked[j].fun)
    x, success, status, msg, cv, fun = res
    raw = [float(v) for v in asked[i].x]
    ctx.equal([float(v) for v in x], [0.0 if v < DAY else v for v in raw], "frequencies of the result (%s)" % what)
    # the strategies of that round
    fs = (given if i == 0 else w.freqs([float(v) for v in asked[i - 1].x]))
    run = Run(w, fs if fs is not None else start, ps, trips)
    ev = Eval(w, run, w.freqs(raw))
    ctx.close(fun, ev.VRC, "cost given with the result (%s)" % what)
    ctx.check(max(ev.con) <= 0.001 + 1e-9, "the result is not feasible (%s)" % what, constraints=max(ev.con))
    o = Optimizer(w.g, demand(w, trips), ps, w.net, fs)
    free = [k for k, ln in enumerate(w.lines) if raw[k] > (0.05 if mk == "dear vehicles" else 1.0) and (fs is None or fs[ln.id] > 0)]
    fixed = [ln.mode.fini for ln in w.lines]
    x0 = [v if (fs is None or fs[ln.id] > 0) else 0.0 for v, ln in zip(fixed, w.lines)]
    points = [x0] if all(a == b for a, b in zip(x0, fixed)) else []
    if len(raw) > 5:                    # lines by themselves, any two of them and all together
        for m in FINE + (0.5, 1.5, 2.0, 4.0):
            points.append([v * m for v in raw])
            points += [[v * m if k == j else v for k, v in enumerate(raw)] for j in free]
            points += [[v * m if k == j else v / m if k == i else v for k, v in enumerate(raw)] for j in free for i in free if i != j]
        points += [[m if k == j else v for k, v in enumerate(raw)] for j in free for m in COARSE]
    for m in itertools.product(FINE, repeat=min(len(free), 3)):
        points.append([raw[k] * m[free.index(k)] if k in free[:3] else raw[k] for k in range(len(raw))])
    for m in itertools.product(COARSE, repeat=min(len(free), 2)):
        points.append([m[free.index(k)] if k in free[:2] else raw[k] for k in range(len(raw))])
    best = None
    for y in points:
        v = float(o.VRC(y))
        if v < fun and max(o.get_constrains(y)) <= 0 and (best is None or v < best[0]):
            best = (v, y)
    ctx.n_trans += len(points)
    slack = SLACK * abs(fun)
    ctx.check(best is None or best[0] >= fun - slack, "other frequencies are feasible and cheaper (%s)" % what, found=(fun, raw), better=best)
    ctx.outcome = "round %d of %d, %s" % (i + 1, len(asked), "at a limit" if max(ev.con) > -0.01 else "free")
    if single:
        asked2, res2, _ = optimise(w, trips, ps, given, limit)
        ctx.check(not isinstance(res2, Exception) and is_close(res2[5], fun, SLACK) and all(is_close(a, b, 0.05, 0.05) for a, b in zip(res2[0], x)),
                  "the same optimisation asked again (%s)" % what, first=res, again=res2)
    ctx.validated()


def crowd_of(n, names):
    for i in range(1, n + 1):
        LINES.update({"r%d" % i: "P%d S%d C" % (i, i), "s%d" % i: "S%d C" % i, "f%d" % i: "P%d S%d" % (i, i)})
    return [x % i for x in names for i in range(1, n + 1)]


def many_lines(ctx):
    """eight to twelve lines"""
    n, names = ctx.choose("lines", [(4, ("f%d", "s%d")), (9, ("r%d",)), (5, ("r%d", "s%d")), (6, ("f%d", "s%d")), (12, ("r%d",))])
    md = bus_(tat=0.3, fini=ctx.choose("fini", [28.0, 60.0, 90.0]), kmax=ctx.choose("kmax", [160.0, 60.0]))
    w = World(city(n), [(x, md) for x in crowd_of(n, names)])
    k = ctx.choose("demand", [0.5, 1.0, 1.5])
    trips = {("P%d" % i, "C"): k * (150.0 + 40 * i) for i in range(1, n + 1)}
    trips.update({("S%d" % i, "C"): k * 120.0 for i in range(1, n + 1, 2)})
    if "s%d" not in names:
        trips = {x: v for x, v in trips.items() if x[0][0] == "P"}
    found(ctx, w, trips, passenger(), None, "plain", False, "%d zones %s %s %s" % (n, names, md.fini, k))


HARNESSES = [("real solver", body), ("many lines", many_lines)]
BOUNDS = {"quick": "systems of 8 to 12 lines (each, any two and all frequencies moved); 22 systems x 3-4 mode parameter sets (binding vehicle and stop capacities, vehicles so dear that less than one an hour is best) x 3 demands x 1-2 starting points; for each result every point of a 5^3 "
                   "grid around it and of an 8^2 grid over the whole range", "thorough": "two passengers, two starting points everywhere"}
ASSUMPTIONS = ["scipy's solver is trusted to get within 0.2% of the optimum; where it gives up, the library says so; demands of a few trips an hour, where its "
               "absolute tolerance stops it up to 13% above the optimum, are left out"]
