"""C16 boardings, alightings and loads of every line"""
from world import *
from bfs import observe

FH = {"even": [28.0] * 5, "uneven": [4.0, 25.0, 11.0, 60.0, 7.5], "stopped": [9.0, 0.0, 30.0, 14.0, 2.0]}
FE = {"same": None, "other": [40.0, 3.0, 17.0, 5.0, 90.0, 11.0, 2.0], "small": [0.05, 2.0, 0.5, 1.0, 0.2, 0.7, 0.09]}


def loads(r, f):
    z, v, l = Assignment.get_alighting_and_boarding(r.vs, r.hs, r.ss, r.asg, f)
    return z, v, l


def judge(ctx, w, r, f, what):
    z, v, l = loads(r, f)
    flow = Flow(w, r.ods, f)
    wb, wa = per_vehicle(flow.board, f), per_vehicle(flow.alight, f)
    ws = per_vehicle({(a, b, ("s", w.line[a].mode.name, c)): x for (a, b, c), x in flow.section.items()}, f)
    compare_map(ctx, flat(z), wb, "boardings per vehicle (%s)" % what)
    compare_map(ctx, flat(v), wa, "alightings per vehicle (%s)" % what)
    compare_map(ctx, flat(l), ws, "travellers on board per vehicle and section (%s)" % what)
    # conservation, per line and direction
    fz, fv, fl = flat(z), flat(v), flat(l)
    for ln in w.lines:
        m = ln.mode.name
        for d in "IR":
            if not ln.stops[d]:
                continue
            st = ln.stops[d][:-1] if ln.circular else ln.stops[d]
            net = {s: fz.get((ln.id, d, ("s", m, s)), 0.0) - fv.get((ln.id, d, ("s", m, s)), 0.0) for s in st}
            ctx.close(sum(net.values()), 0.0, "travellers appear or vanish on line %s %s (%s)" % (ln.id, d, what), abs_=1e-6)
            load = {s: fl.get((ln.id, d, ("s", m, s)), 0.0) for s in st}
            prev = load[st[-1]] if ln.circular else 0.0
            for s in st:
                ctx.close(load[s], prev + net[s], "load of %s %s after stop %s is not boardings less alightings (%s)" % (
                    ln.id, d, s, what), abs_=1e-6)
                prev = load[s]
    most = Assignment.most_loaded_section(l)
    for ln in w.lines:
        want = max([x for k, x in fl.items() if k[0] == ln.id] + [0.0])
        ctx.close(most[ln.id], want, "most loaded section of %s (%s)" % (ln.id, what))
    ctx.validated()
    return z, v, l, flow


def body(ctx):
    net = ctx.choose("network", list(NETWORKS))
    shape = ctx.choose("city", ["ids", "asym"] if ctx.thorough else ["ids"])
    w = network(net, shape)
    fh = ctx.choose("strategy frequencies", list(FH))
    f = w.freqs(FH[fh])
    ps = passenger(**PSETS[ctx.choose("passenger", list(PSETS))])
    dm = ctx.choose("demand", list(DEMANDS))
    trips = trips_of(w, dm, f, ps)
    if not trips:
        ctx.prune()
    r = Run(w, f, ps, trips)
    split = False
    for fe in FE:
        fev = f if FE[fe] is None else w.freqs([x if f[ln.id] else 0.0 for ln, x in zip(w.lines, FE[fe])])
        before = observe([w.g, w.net, ps, r.ods, sorted(fev.items())])
        what = "%s %s %s/%s" % (net, dm, fh, fe)
        ctx.step(what)
        ctx.state((what, shape, repr(observe(ps))))
        z, v, l, flow = judge(ctx, w, r, fev, what)
        split |= flow.split
        # the same question twice
        z2, v2, l2 = loads(r, fev)
        for x, y in ((z2, z), (v2, v), (l2, l)):
            compare_map(ctx, flat(x), flat(y), "the same question has two answers (%s)" % what, 1e-9)
        r.keyed()
        ctx.check(observe([w.g, w.net, ps, r.ods, sorted(fev.items())]) == before, "loading the lines changed its inputs")
    # three times the demand, and pair by pair
    r3 = Run(w, f, ps, {k: 3 * x for k, x in trips.items()})
    a, b = loads(r, f), loads(r3, f)
    for i, nm in enumerate(("boardings", "alightings", "loads")):
        compare_map(ctx, flat(b[i]), {k: 3 * x for k, x in flat(a[i]).items()}, "%s are not proportional to the demand" % nm)
    if len(trips) <= 5:
        tot = [defaultdict(float), defaultdict(float), defaultdict(float)]
        for k, x in trips.items():
            one = loads(Run(w, f, ps, {k: x}), f)
            for i in range(3):
                for kk, y in flat(one[i]).items():
                    tot[i][kk] += y
        for i, nm in enumerate(("boardings", "alightings", "loads")):
            compare_map(ctx, flat(a[i]), tot[i], "%s are not the sum over the pairs" % nm)
    ctx.outcome = "split" if split else "single line at every stop"


def largest(ctx):
    """the most loaded section of any table of loads"""
    vals = [0.0, 1.5, 7.0]
    t = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    k = ctx.choose("lines", [0, 1, 2])
    want = {}
    for i in range(k):
        best = 0.0
        t["l%d" % i]
        for d in ctx.choose("directions %d" % i, ["", "I", "R", "IR"]):
            for s in range(2):
                x = ctx.choose("load %d %s %d" % (i, d, s), vals)
                t["l%d" % i][d]["stop%d" % s] = x
                best = max(best, x)
        want["l%d" % i] = best
    got = Assignment.most_loaded_section(t)
    ctx.step()
    ctx.state(sorted(want.items()))
    for i in want:
        ctx.equal(got[i], want[i], "most loaded section")
    ctx.check(all(i in want for i in list(got)), "a line that does not exist")
    ctx.validated()


def loaded(ctx, w, f, what):
    ps = passenger()
    for dm in ("all", "cross"):
        trips = trips_of(w, dm, f, ps)
        if trips:
            judge(ctx, w, Run(w, f, ps, trips), f, "%s %s" % (what, dm))


changes = changing(loaded, [("theta", 0.1), ("v", 11.0), ("d", 2)])

HARNESSES = [("changes", changes), ("large city", large(loaded)), ("sizes", sizes(loaded)), ("dozens of lines", many(loaded)), ("lines", body), ("largest", largest), ("twins", twins(loaded))]
BOUNDS = {"quick": "18 networks x 8 demands x 4 passenger profiles x 3 strategy frequency patterns x 3 running frequency patterns; all tables "
                   "of loads with <=2 lines over 3 values; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "two cities; 3 changes"}
ASSUMPTIONS = ["a line that is part of a strategy runs (its frequency is positive when the lines are loaded)"]
