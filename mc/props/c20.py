"""C20 capacity constraints: vehicles are not overfull and stops are not oversaturated"""
from world import *
from bfs import observe
from c16 import FH, loads
from sidermit.optimization import Constrains


def ref_fmax(w, f):
    """{(street, mode): line-frequency over the street less the limit of one stop}"""
    out = {}
    for e in w.g.get_edges():
        a, b = int(e.node1.id), int(e.node2.id)
        for m in w.net.get_modes():
            tot = 0.0
            for ln in w.lines:
                if ln.mode is m:
                    for d in "IR":
                        tot += f[ln.id] / m.d * sum(1 for q in zip(ln.nodes[d], ln.nodes[d][1:]) if q == (a, b))
            out[(a, b), m.name] = tot - m.fmax / m.d
    return out


def judge(ctx, w, f, what):
    before = observe([w.g, w.net, sorted(f.items())])
    got = Constrains.fmax_constrains(w.g, w.net.get_routes(), w.net.get_modes(), f)
    ctx.step(what)
    want = ref_fmax(w, f)
    # one value per street and mode, in any order
    ctx.equal(len(got), len(want), "number of frequency constraints (%s)" % what)
    for x, (nm, y) in zip(sorted(got), sorted(want.items(), key=lambda q: q[1])):
        ctx.close(x, y, "frequency constraint of street %s for %s (%s)" % (nm[0], nm[1], what))
    feasible = all(x <= 1e-9 for x in got)
    ctx.equal(feasible, all(x <= 1e-9 for x in want.values()), "feasibility of the frequencies (%s)" % what)
    ctx.check(observe([w.g, w.net, sorted(f.items())]) == before, "evaluating constraints changed the network")
    ctx.validated()
    return feasible


def streets(ctx):
    n, shape = ctx.choose("city", [(3, "ids"), (4, "asym"), (2, "sym")])
    names = line_names(n) + ["cir-I", "cir-R"]
    a = ctx.choose("line 1", names)
    b = ctx.choose("line 2", [None] + names)
    how = ctx.choose("modes", [0, 1]) if b else 0
    if a == b and how == 0:
        ctx.prune()
    ms = [bus_(d=ctx.choose("d", [4, 1]), fmax=50.0), metro_()]
    w = World(city(n, shape=shape), [(a, ms[0])] + ([(b, ms[how])] if b else []))
    res = []
    for fv in ([28.0, 7.0], [0.0, 41.0], [200.0, 0.0], [120.0, 81.0], [50.0, 0.5], [1.0, 0.03]):
        ctx.state((n, shape, a, b, how, ms[0].d, fv))
        res.append(judge(ctx, w, w.freqs(fv), "%s+%s %s" % (a, b, fv)))
    ctx.outcome = "feasible %d of %d" % (sum(res), len(res))


def families(ctx):
    from c12 import PW
    n = ctx.choose("n", [2, 4, 6, 8] if ctx.thorough else [2, 4, 5])
    fams = [("feeder", None, None, None), ("circular", None, None, None)]
    fams += [("radial", None, s, e) for s in (False, True) for e in (False, True)]
    for fm in ("diametral", "tangential"):
        fams += [(fm, j, s, False) for j in range(1, n // 2 + 1) for s in (False, True)]
    ms = [bus_(), metro_()]
    a = ctx.choose("family 1", fams)
    b = ctx.choose("family 2", fams)
    how = ctx.choose("modes", [0, 1])
    if how == 0 and a[0] == b[0]:
        ctx.prune()
    w = PW(city(n, shape="ids"), [(a[0], ms[0]) + a[1:], (b[0], ms[how]) + b[1:]])
    f = defaultdict(float)
    for i, ln in enumerate(w.lines):
        f[ln.id] = [40.0, 0.0, 90.0, 10.0, 23.0][i % 5]
    ctx.state((n, a, b, how))
    ctx.outcome = judge(ctx, w, f, "%s+%s of %d zones" % (a, b, n))


def vehicles(ctx):
    """load of every line against the size of its vehicle"""
    net = ctx.choose("network", list(NETWORKS))
    w = network(net, **ctx.choose("modes", [{}, dict(bus=dict(kmax=3.0), metro=dict(kmax=11.0))]))
    f = w.freqs(FH[ctx.choose("f", list(FH))])
    ps = passenger()
    dm = ctx.choose("demand", list(DEMANDS))
    trips = {k: x * ctx.choose("scale", [1.0, 25.0]) for k, x in list(trips_of(w, dm, f, ps).items())[:1]}
    rest = trips_of(w, dm, f, ps)
    rest.update(trips)
    if not rest:
        ctx.prune()
    r = Run(w, f, ps, rest)
    z, v, l = loads(r, f)
    most = Assignment.most_loaded_section(l)
    got = Constrains.most_loaded_section_constrains(w.net.get_routes(), most)
    ctx.step((net, dm))
    ctx.state((net, dm, sorted(f.items()), sorted(rest.items()), w.modes[0].kmax))
    fl = flat(l)
    want = [max([x for q, x in fl.items() if q[0] == ln.id] + [0.0]) - ln.mode.kmax for ln in w.lines]
    ctx.equal(len(got), len(want), "number of vehicle constraints")
    for ln, a, b in zip(w.lines, got, want):
        ctx.close(a, b, "vehicle constraint of %s (%s %s)" % (ln.id, net, dm))
    ctx.validated()
    ctx.outcome = "feasible" if all(x <= 0 for x in want) else "overfull"


def any_load(ctx):
    w = World(city(2), [("radial1", bus_(kmax=ctx.choose("kmax", [0.0, 160.0]))), ("dia", metro_()), ("radial2", bus_())][:2])
    m = defaultdict(float)
    want = []
    for ln in w.lines:
        x = ctx.choose("load", [None, 0.0, 159.999, 160.0, 1e6])
        if x is not None:
            m[ln.id] = x
        want.append((x or 0.0) - ln.mode.kmax)
    got = Constrains.most_loaded_section_constrains(w.net.get_routes(), m)
    ctx.step()
    ctx.state(want)
    ctx.check(len(got) == 2 and is_close(got[0], want[0]) and is_close(got[1], want[1]), "vehicle constraints", got=got, want=want)
    ctx.validated()


def limits(ctx, w, f, what):
    judge(ctx, w, f, what)
    m = defaultdict(float, {ln.id: 3.0 + 11 * i for i, ln in enumerate(w.lines)})
    got = Constrains.most_loaded_section_constrains(w.net.get_routes(), m)
    ctx.equal(len(got), len(w.lines), "number of vehicle constraints (%s)" % what)
    for ln, x in zip(w.lines, got):
        ctx.close(x, m[ln.id] - ln.mode.kmax, "vehicle constraint of %s (%s)" % (ln.id, what))


changes = changing(limits, [("d", 2), ("fmax", 7.0), ("kmax", 9.0)])

HARNESSES = [("changes", changes), ("large city", large(limits)), ("sizes", sizes(limits)), ("dozens of lines", many(limits)), ("streets", streets), ("families", families), ("vehicles", vehicles), ("any load", any_load), ("twins", twins(limits))]
BOUNDS = {"quick": "every pair of 26-29 line shapes in 3 cities, one or two modes, d in {1,4}, 6 frequency patterns on both sides of the limit; all pairs of "
                   "families for n in {2,4,5}; 18 loaded networks x 7 demands x 3 frequencies x 2 sizes; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "n up to 8; 3 changes"}
ASSUMPTIONS = ["vehicle constraints are listed line by line, as the solver and the tests read them; no order of the streets and modes is prescribed"]
