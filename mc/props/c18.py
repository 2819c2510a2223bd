"""C18 cycle times of the lines and cost of operating them"""
from world import *
from bfs import observe
from c16 import FH, loads
from sidermit.optimization import OperatorsCost


def ref_travel(w, ln):
    return sum(w.dist(a, b) for d in "IR" for a, b in zip(ln.nodes[d], ln.nodes[d][1:])) / ln.mode.v


def ref_cycle(ln, travel, fz, fv):
    tot = 0.0
    for d in "IR":
        for s in set(ln.stops[d]):
            st = ("s", ln.mode.name, s)
            a, b = fz.get((ln.id, d, st), 0.0), fv.get((ln.id, d, st), 0.0)
            tot += max(a, b) if ln.mode.bya == 1 else a + b
    return travel + tot * ln.mode.t / 3600.0


def travel(ctx):
    """running time of every line shape in every city"""
    n, shape = ctx.choose("city", [(3, "sym"), (3, "ids"), (3, "asym"), (4, "ecc"), (8, "asym")])
    a = ctx.choose("line", line_names(n) + ["cir-I", "cir-R"])
    v = ctx.choose("speed", [20.0, 40.0, 0.5, 33.3])
    b = ctx.choose("another", [None, "dia", "cir-I"])
    md = bus_(v=v)
    w = World(city(n, shape=shape), [(a, md)] + ([(b, metro_())] if b and b != a else []))
    dist = w.g.get_edges_distance()
    before = observe([w.g, w.net])
    got = OperatorsCost.lines_travel_time(w.net.get_routes(), dist)
    ctx.step((n, shape, a, v, b))
    ctx.state((n, shape, a, v, b))
    ctx.equal(sorted(got), sorted(ln.id for ln in w.lines), "lines with a running time")
    for ln in w.lines:
        ctx.close(got[ln.id], ref_travel(w, ln), "running time of %s" % ln.id)
    ctx.check(observe([w.g, w.net]) == before, "measuring the lines changed the network")
    ctx.validated()


def tables(ctx):
    """every table of boardings and alightings at two stops of both directions"""
    bya = ctx.choose("simultaneous", [0, 1])
    t = ctx.choose("time per passenger", [2.5, 0.0, 60.0, 0.05])
    md = bus_(bya=bya, t=t)
    w = World(city(2), [("short1", md), ("radial2", metro_(bya=1 - bya))])
    eg = ExtendedGraph(w.g, w.net.get_routes(), 16, None)
    nd = eg.get_extended_graph_nodes()
    stops = {key(s): s for c in list(nd) for s in list(nd[c])}
    ln, other = w.lines
    z = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    v = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    vals = [None, 0.0, 1.5, 40.0]
    corner = ctx.choose("return at S1", [{"on": 3.0, "off": None}, {"on": None, "off": None}])
    for d in "IR":
        for s in (w.sym["S1"], w.sym["C"]):
            st = ("s", md.name, s)
            for tab, nm in ((z, "on"), (v, "off")):
                if d == "R" and s == w.sym["S1"]:
                    x = corner[nm]
                else:
                    x = ctx.choose("%s %s %s" % (nm, d, s), vals if (ctx.thorough or d == "I") else vals[:3])
                if x is not None:
                    tab[ln.id][d][stops[st]] = x
    fz, fv = flat(z), flat(v)
    tt = defaultdict(float)
    tt[ln.id] = ctx.choose("running time", [0.75, 0.0])
    tt[other.id] = 2.0
    got = OperatorsCost.get_cycle_time(z, v, w.net.get_routes(), tt)
    ctx.step()
    ctx.state((bya, t, sorted(fz.items(), key=str), sorted(fv.items(), key=str), tt[ln.id]))
    for x in w.lines:
        ctx.check(is_close(got[x.id], ref_cycle(x, tt[x.id], fz, fv), 1e-9, 1e-12), "cycle time of %s" % x.id, got=got[x.id], want=ref_cycle(x, tt[x.id], fz, fv))
    ctx.equal((flat(z), flat(v)), (fz, fv), "the tables were changed")
    ctx.close(OperatorsCost.get_cycle_time(z, v, w.net.get_routes(), tt)[ln.id], got[ln.id], "cycle time asked twice")
    ctx.validated()


def money(ctx):
    """every combination of frequencies, vehicle sizes and cycle times of two lines"""
    ms = [bus_(co=ctx.choose("co", [8.61, 0.0]), c1=ctx.choose("c1", [0.15, 0.0, 3.0])), metro_()]
    w = World(city(2), [("radial1", ms[0]), ("dia", ctx.choose("second", ms))])
    f, k, tc = defaultdict(float), defaultdict(float), defaultdict(float)
    want = 0.0
    for ln in w.lines:
        f[ln.id] = ctx.choose("f", [0.0, 28.0, 0.5, 1.0])
        k[ln.id] = ctx.choose("k", [0.0, 12.5, 160.0])
        tc[ln.id] = ctx.choose("cycle", [0.0, 1.25, 7.0])
        want += (ln.mode.co + ln.mode.c1 * k[ln.id]) * f[ln.id] * tc[ln.id]
    if ctx.flag("no load reported"):
        k = defaultdict(float)
        want = sum(ln.mode.co * f[ln.id] * tc[ln.id] for ln in w.lines)
    got = OperatorsCost.get_operators_cost(w.net.get_routes(), tc, f, k)
    ctx.step()
    ctx.state((sorted(f.items()), sorted(k.items()), sorted(tc.items()), ms[0].co, ms[0].c1))
    ctx.close(got, want, "cost of operating the lines")
    ctx.validated()


def pipeline(ctx):
    """cycle times and cost of loaded networks"""
    net = ctx.choose("network", list(NETWORKS))
    mk = ctx.choose("modes", [{}, dict(bus=dict(bya=0, t=9.0), metro=dict(bya=1, t=6.0))])
    w = network(net, "asym", **mk)
    f = w.freqs(FH[ctx.choose("f", ["even", "stopped"])])
    ps = passenger(**PSETS[ctx.choose("passenger", ["default", "patient"])])
    dm = ctx.choose("demand", list(DEMANDS))
    trips = {k: 30 * x for k, x in trips_of(w, dm, f, ps).items()}
    if not trips:
        ctx.prune()
    r = Run(w, f, ps, trips)
    z, v, l = loads(r, f)
    fz, fv = flat(z), flat(v)
    k = Assignment.most_loaded_section(l)
    tt = OperatorsCost.lines_travel_time(w.net.get_routes(), w.g.get_edges_distance())
    tc = OperatorsCost.get_cycle_time(z, v, w.net.get_routes(), tt)
    got = OperatorsCost.get_operators_cost(w.net.get_routes(), tc, f, k)
    ctx.step((net, dm))
    ctx.state((net, dm, str(mk), sorted(f.items()), repr(observe(ps))))
    want = 0.0
    for ln in w.lines:
        c = ref_cycle(ln, ref_travel(w, ln), fz, fv)
        ctx.close(tc[ln.id], c, "cycle time of %s (%s %s)" % (ln.id, net, dm))
        big = max([x for q, x in flat(l).items() if q[0] == ln.id] + [0.0])
        want += (ln.mode.co + ln.mode.c1 * big) * f[ln.id] * c
    ctx.close(got, want, "cost of operating the lines (%s %s)" % (net, dm))
    ctx.validated()


def operated(ctx, w, f, what):
    ps = passenger()
    trips = {k: 20 * x for k, x in trips_of(w, "all", f, ps).items()}
    r = Run(w, f, ps, trips)
    z, v, l = loads(r, f)
    fz, fv = flat(z), flat(v)
    tt = OperatorsCost.lines_travel_time(w.net.get_routes(), w.g.get_edges_distance())
    tc = OperatorsCost.get_cycle_time(z, v, w.net.get_routes(), tt)
    got = OperatorsCost.get_operators_cost(w.net.get_routes(), tc, f, Assignment.most_loaded_section(l))
    want = 0.0
    ctx.equal(sorted(tt), sorted(ln.id for ln in w.lines), "lines with a running time (%s)" % what)
    for ln in w.lines:
        ctx.close(tt[ln.id], ref_travel(w, ln), "running time of %s (%s)" % (ln.id, what))
        c = ref_cycle(ln, ref_travel(w, ln), fz, fv)
        ctx.close(tc[ln.id], c, "cycle time of %s (%s)" % (ln.id, what))
        big = max([x for q, x in flat(l).items() if q[0] == ln.id] + [0.0])
        want += (ln.mode.co + ln.mode.c1 * big) * f[ln.id] * c
    ctx.close(got, want, "cost of operating the lines (%s)" % what)
    ctx.validated()


changes = changing(operated, [("v", 11.0), ("t", 20.0), ("bya", 0), ("co", 3.0), ("c1", 2.0)])

HARNESSES = [("changes", changes), ("large city", large(operated)), ("sizes", sizes(operated)), ("dozens of lines", many(operated)), ("travel", travel), ("tables", tables), ("money", money), ("pipeline", pipeline), ("twins", twins(operated))]
BOUNDS = {"quick": "26-29 line shapes x 5 cities x 4 speeds; every table of boardings/alightings over 3-4 values at 3 line ends, both dwell rules; all "
                   "f,k,cycle combinations of two lines; 18 loaded networks x 7 demands; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "4 values everywhere; 3 changes"}
ASSUMPTIONS = []
