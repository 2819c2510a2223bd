"""C23 the optimised function and its constraints: composition, and independence of earlier questions"""
import numpy as np
from evalref import *
from bfs import observe
from c16 import FH, FE
from c17 import MODS
from sidermit.optimization.optimizer import Optimizer

OBJ = ("VRC",)


def judge(ctx, opt, w, r, f, what, kind=list):
    ev = Eval(w, r, f)
    x = kind(vector(w, f))
    keep = list(x)
    ctx.close(opt.VRC(x), ev.VRC, "total cost (%s)" % what)
    got = ev.limits(opt.get_constrains(x))
    ctx.equal(len(got), len(ev.con), "number of constraints (%s)" % what)
    for i, (a, b) in enumerate(zip(got, ev.con)):
        ctx.close(a, b, "constraint %d (%s)" % (i, what))
    ctx.equal(list(x), keep, "evaluating changed the frequencies (%s)" % what)
    ctx.validated()
    return ev


def body(ctx):
    net = ctx.choose("network", list(NETWORKS))
    mk = ctx.choose("modes", list(MODS))
    w = network(net, "ids", **MODS[mk])
    fh = ctx.choose("strategy frequencies", [None] + list(FH))
    f = w.freqs(FH[fh]) if fh else w.freqs([ln.mode.fini for ln in w.lines])
    pk = ctx.choose("passenger", list(PSETS) if ctx.thorough else ["default" if mk in ("plain", "waiting") else "sprinter"])
    ps = passenger(**PSETS[pk])
    dm = ctx.choose("demand", list(DEMANDS))
    trips = trips_of(w, dm, f, ps)
    if not trips:
        ctx.prune()
    what = "%s %s %s %s" % (net, mk, dm, fh)
    d = demand(w, trips)
    given = w.freqs(FH[fh]) if fh else None
    before = observe([w.g, w.net, ps, d, sorted((given or {}).items())])
    opt = Optimizer(w.g, d, ps, w.net, given)
    ctx.step(what)
    r = Run(w, f if fh else None, ps, trips)
    r.f = f
    ctx.equal([opt.fopt_to_f([float(i) for i in range(len(w.lines))])[ln.id] for ln in w.lines], [float(i) for i in range(len(w.lines))],
              "order of the frequencies (%s)" % what)
    first = None
    for fe in FE:
        fev = f if FE[fe] is None else w.freqs([x if f[ln.id] else 0.0 for ln, x in zip(w.lines, FE[fe])])
        ctx.state((what, pk, fe))
        ev = judge(ctx, opt, w, r, fev, what + "/" + fe, np.array if fe == "other" else list)
        first = first or (ev, fev)
    judge(ctx, opt, w, r, first[1], what + " again")
    ctx.check(observe([w.g, w.net, ps, d, sorted((given or {}).items())]) == before, "evaluating changed the inputs (%s)" % what)
    ctx.outcome = "feasible" if all(x <= 0 for x in first[0].con) else "infeasible"


SMALL = ["radial", "ring", "competing", "asymmetric", "express", "return-express"]


def histories(ctx):
    """every history of questions to two optimisers over the same city, network and demand"""
    net = ctx.choose("network", SMALL if ctx.thorough else SMALL[:4])
    w = network(net)
    ps = passenger()
    fs = [w.freqs(FH["uneven"]), w.freqs(FH["even"])]
    trips = trips_of(w, "mixed", fs[0], ps)
    runs = [Run(w, f, ps, trips) for f in fs]
    d = demand(w, trips)
    before = observe([w.g, w.net, ps, d])
    opts = [Optimizer(w.g, d, ps, w.net, fs[0]), Optimizer(w.g, d, ps, w.net, fs[1])]
    # the second set of frequencies is the first one given to other lines
    k = len(w.lines)
    probes = [w.freqs([40.0, 3.0, 17.0, 5.0, 90.0]), w.freqs([40.0, 3.0, 17.0, 5.0, 90.0][:k][::-1]), w.freqs([0.5, 200.0, 1.0, 30.0, 2.0])]
    evs = [[Eval(w, r, p) for p in probes] for r in runs]
    hist = []
    for i in range(4 if ctx.thorough else 3):
        who = ctx.choose("who", [0, 1]) if i else 0
        ask = ctx.choose("ask", [("cost", 0), ("cost", 1), ("cost", 2), ("limits", 0), ("limits", 1), ("reports", 0), ("another", 0), ("text", 0)])
        hist.append((who, ask))
        o, p = opts[who], probes[ask[1]]
        if ask[0] == "cost":
            ctx.close(o.VRC(vector(w, p)), evs[who][ask[1]].VRC, "total cost after %s" % hist)
        elif ask[0] == "limits":
            got = evs[who][ask[1]].limits(o.get_constrains(vector(w, p)))
            ctx.check(len(got) == len(evs[who][ask[1]].con) and all(is_close(a, b) for a, b in zip(got, evs[who][ask[1]].con)),
                      "constraints after %s" % hist)
        elif ask[0] == "reports":
            o.better_res = (vector(w, p), True, 1, "done", 0.0, 1.0)
            rows = o.get_network_results()
            out = o.get_overall_results()
            e2 = Eval(w, Run(w, p, ps, trips), p)
            ctx.close(out["VRC"] * sum(trips.values()), e2.VRC, "total cost reported after %s" % hist)
            for row in rows:
                ctx.close(row[3], e2.k[row[0]], "vehicle size reported after %s" % hist)
        elif ask[0] == "text":
            o.better_res = (vector(w, p), True, 1, "done", 0.0, 1.0)
            o.string_overall_results()
            o.string_network_results()
            o.string_network_optimization(o.better_res)
        else:
            opts[who] = Optimizer(w.g, d, ps, w.net, fs[who])
        ctx.step(ask)
    # everything is as in the beginning
    for o, ev in zip(opts, evs):
        for p, e in zip(probes, ev):
            ctx.close(o.VRC(vector(w, p)), e.VRC, "total cost at the end of %s" % hist)
            ctx.check(all(is_close(a, b) for a, b in zip(e.limits(o.get_constrains(vector(w, p))), e.con)), "constraints at the end of %s" % hist)
    ctx.check(observe([w.g, w.net, ps, d]) == before, "the inputs changed during %s" % hist)
    ctx.state((net, hist))
    ctx.validated()


def edits(ctx):
    """an optimiser sees the network, demand and frequencies as they are when it is made"""
    net = ctx.choose("network", SMALL)
    w = network(net)
    ps = passenger()
    f = w.freqs(FH["uneven"])
    trips = trips_of(w, "ring" if net == "ring" else "radial", f, ps)
    p = w.freqs([40.0, 3.0, 17.0, 5.0, 90.0])
    o1 = Optimizer(w.g, demand(w, trips), ps, w.net, f)
    e1 = Eval(w, Run(w, f, ps, trips), p)
    ctx.close(o1.VRC(vector(w, p)), e1.VRC, "total cost")
    ops = ["frequency", "demand", "passenger", "line", "order", "replace", "mode", "city"]
    for i in range(2):
        op = ctx.choose("edit %d" % i, ops)
        if op == "frequency":
            f = w.freqs([x + 3 * (k + i) for k, x in enumerate(FH["uneven"])])
        elif op == "demand":
            trips = dict(trips)
            k = sorted(trips)[0]
            trips[k] = trips[k] * 2 + 5
        elif op == "passenger":
            ps = passenger(va=3.0 + i, spw=7.0, pw=9.0)
        elif op == "replace":            # another line under the id of an earlier one
            old = [x for x in w.lines if not x.circular][i]
            w.drop(old)
            w.put(old.id, "dia", old.mode)
            w.modes = list(w.net.get_modes())
        elif op == "mode":
            w.lines[0].mode.t = 6.0 + i
            w.lines[-1].mode.co = 30.0 + i
        elif op == "city":               # the same lines in another city
            old = w
            w = World(city(3, p=2.0, shape="asym" if i == 0 else "sym"), [])
            for x in old.lines:
                w.put(x.id, x.shape, x.mode)
            w.modes = list(w.net.get_modes())
        elif op == "order":              # the same lines, entered in another order
            new = TransportNetwork(w.g)
            for rt in w.net.get_routes()[::-1]:
                new.add_route(rt)
            w.net = new
            w.lines = [w.line[rt.id] for rt in new.get_routes()]
            w.modes = list(dict.fromkeys(ln.mode for ln in w.lines))
        else:
            rid = "extra%d" % i
            w.put(rid, "short1", w.lines[0].mode)
            f = defaultdict(float, f)
            p = defaultdict(float, p)
            f[rid], p[rid] = 12.0, 6.0
        o = Optimizer(w.g, demand(w, trips), ps, w.net, f)
        e = Eval(w, Run(w, f, ps, trips), p)
        ctx.step(op)
        ctx.state((net_of(w), op, i, sorted(trips.items()), sorted(f.items())))
        ctx.close(o.VRC(vector(w, p)), e.VRC, "total cost after editing (%s)" % op)
        got = e.limits(o.get_constrains(vector(w, p)))
        ctx.check(len(got) == len(e.con) and all(is_close(a, b) for a, b in zip(got, e.con)), "constraints after editing (%s)" % op)
        ctx.validated()


def digits(ctx):
    """frequencies that differ in their last digits, asked one after another"""
    net = ctx.choose("network", list(NETWORKS))
    w = network(net)
    ps = passenger()
    f = w.freqs(FH["uneven"])
    trips = trips_of(w, "mixed", f, ps) or trips_of(w, "ring", f, ps)
    opt = Optimizer(w.g, demand(w, trips), ps, w.net, f)
    r = Run(w, f, ps, trips)
    at = ctx.choose("around", [[28.0] * 5, [0.05, 3.0, 17.0, 0.5, 90.0], [math.pi, 100 / 3.0, math.e, 1 / 7.0, 0.1 + 0.2]])
    which = ctx.choose("line", list(range(len(w.lines))) + ["all"])
    for eps in (0.0, 1e-9, -1e-7, 1e-5, 4e-4, 0.0, -3e-3, 1e-7):
        p = w.freqs([x * (1 + eps) if which in (i, "all") else x for i, x in enumerate(at)])
        ev = Eval(w, r, p)
        x = vector(w, p)
        got = opt.VRC(x)
        ctx.step(eps)
        ctx.state((net, at, which, eps))
        ctx.check(is_close(got, ev.VRC, 1e-12, 0), "total cost of frequencies with many digits", got=got, want=ev.VRC, f=x)
        for a, b in zip(ev.limits(opt.get_constrains(x)), ev.con):
            ctx.check(is_close(a, b, 1e-11, 1e-11), "constraint at frequencies with many digits", got=a, want=b, f=x)
    ctx.validated()


def far(ctx, w, f, what):
    ps = passenger()
    trips = trips_of(w, "all", f, ps)
    judge(ctx, Optimizer(w.g, demand(w, trips), ps, w.net, f), w, Run(w, f, ps, trips), w.freqs([40.0, 3.0, 17.0, 5.0, 90.0, 11.0, 2.0] * 6), what)


def held(ctx):
    """frequencies are asked in one list or array that is altered in between; answers are altered by whoever asked"""
    net = ctx.choose("network", SMALL)
    w = network(net)
    ps = passenger()
    f = w.freqs(FH["uneven"])
    trips = trips_of(w, "mixed", f, ps) or trips_of(w, "ring", f, ps)
    opt = Optimizer(w.g, demand(w, trips), ps, w.net, f)
    r = Run(w, f, ps, trips)
    kind = ctx.choose("held in", ["list", "array", "a new list each time"])
    x = {"list": list, "array": np.array}.get(kind, list)(vector(w, w.freqs([40.0, 3.0, 17.0, 5.0, 90.0])))
    first = ctx.choose("asks", [("cost",), ("limits",), ("cost", "limits"), ("limits", "cost")])
    for i, at in enumerate([[40.0, 3.0, 17.0, 5.0, 90.0], [41.0, 3.0, 17.0, 5.0, 90.0], [3.0, 40.0, 5.0, 17.0, 9.0], [40.0, 3.0, 17.0, 5.0, 90.0],
                            [40.0, 3.0, 17.0, 5.0, 90.0]]):
        p = w.freqs(at)
        for k, v in enumerate(vector(w, p)):
            x[k] = v
        if kind == "a new list each time":
            x = list(x)
        ev = Eval(w, r, p)
        for q in first:
            if q == "cost":
                ctx.close(opt.VRC(x), ev.VRC, "total cost of the frequencies now in the %s (%s)" % (kind, net))
            else:
                con = opt.get_constrains(x)
                got = ev.limits(con)
                ctx.check(len(got) == len(ev.con) and all(is_close(a, b) for a, b in zip(got, ev.con)), "constraints of the frequencies now in the %s (%s)" % (kind, net))
                if isinstance(con, list):
                    con.append(1e9)
                    con[0] = -5.0
        ctx.step(at)
        ctx.state((net, kind, first, i))
    ctx.validated()


def net_of(w):
    return sorted(ln.id for ln in w.lines)


HARNESSES = [("everywhere", body), ("held", held), ("histories", histories), ("edits", edits), ("digits", digits), ("large city", large(far)), ("sizes", sizes(far)), ("dozens of lines", many(far)), ("twins", twins(far))]
BOUNDS = {"quick": "18 networks x 4 mode parameter sets x 4 strategy frequencies x 3 running frequencies x 2 passengers x 7 demands; all 3-question histories of two "
                   "optimisers over 8 questions on 4 networks; all 2-step edits on 6 networks; 8 neighbouring frequencies of every line around 3 points; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn; edits also replace lines, modes and the city; frequencies held in one list or array that is altered between questions", "thorough": "4 passengers; 4 questions, 6 networks"}
ASSUMPTIONS = ["strategies and shares are those reported by the system (judged by C13-C15)", "a line that is part of a strategy runs"]
