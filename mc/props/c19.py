"""C19 streets that have to be equipped for every mode, and what they cost"""
from world import *
from bfs import observe
from sidermit.optimization import InfrastructureCost


def ref_length(w, f):
    out = {}
    for m in w.modes:
        st = set()
        for ln in w.lines:
            if ln.mode is m and f[ln.id] != 0:
                for d in "IR":
                    st |= {frozenset(e) for e in zip(ln.nodes[d], ln.nodes[d][1:])}
        out[m.name] = m.d * sum(w.dist(*tuple(s)) for s in st)
    return out


def judge(ctx, w, f, what):
    before = observe([w.g, w.net, sorted(f.items())])
    got = InfrastructureCost.get_mode_network_distance(w.g, w.net, f)
    names = {m.name: float(got[m]) for m in w.modes}
    want = ref_length(w, f)
    ctx.step(what)
    for m in w.modes:
        ctx.close(names[m.name], want[m.name], "length equipped for %s (%s)" % (m.name, what))
    ctx.check(all(m in w.modes for m in list(got)), "a mode that is not in the network")
    cost = InfrastructureCost.get_infrastruture_cost(w.g, w.net, f)
    ctx.close(cost, sum(m.c2 * want[m.name] for m in w.modes), "cost of the infrastructure (%s)" % what)
    ctx.check(observe([w.g, w.net, sorted(f.items())]) == before, "pricing the streets changed the network")
    ctx.validated()


def pairs(ctx):
    n, shape = ctx.choose("city", [(3, "ids"), (4, "asym"), (2, "sym")])
    names = line_names(n) + ["cir-I", "cir-R"]
    a = ctx.choose("line 1", names)
    b = ctx.choose("line 2", [None] + names)
    how = ctx.choose("modes", [0, 1]) if b else 0
    if a == b and how == 0:
        ctx.prune()
    ms = [bus_(c2=100.0, d=ctx.choose("d", [4, 1])), metro_()]
    w = World(city(n, shape=shape), [(a, ms[0])] + ([(b, ms[how])] if b else []))
    for fv in ([28.0, 7.0], [0.0, 7.0], [28.0, 0.0], [0.0, 0.0], [0.001, 1e-12]):
        f = w.freqs(fv)
        ctx.state((n, shape, a, b, how, ms[0].d, fv))
        judge(ctx, w, f, "%s+%s %s" % (a, b, fv))


def triples(ctx):
    sub = ["radial1", "dia", "tan", "loop", "loop-back", "cir-I", "cir-R", "ring12", "express2"]
    a = ctx.choose("line 1", sub)
    b = ctx.choose("line 2", [x for x in sub if x != a])
    c = ctx.choose("line 3", [x for x in sub if x not in (a, b)])
    k = ctx.choose("modes", [(0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0)])
    ms = [bus_(c2=31.0), metro_()]
    w = World(city(3, shape="asym"), [(x, ms[i]) for x, i in zip((a, b, c), k)])
    for m in range(8):
        f = w.freqs([9.0 * (m & 1), 5.0 * (m >> 1 & 1), 2.0 * (m >> 2 & 1)])
        ctx.state((a, b, c, k, m))
        judge(ctx, w, f, "%s+%s+%s running %s" % (a, b, c, m))


def families(ctx):
    from c12 import PW
    n = ctx.choose("n", [2, 4, 6, 8] if ctx.thorough else [2, 4, 6])
    fams = [("feeder", None, None, None), ("circular", None, None, None)]
    fams += [("radial", None, s, False) for s in (False, True)]
    for fm in ("diametral", "tangential"):
        fams += [(fm, j, s, False) for j in range(1, n // 2 + 1) for s in (False, True)]
    ms = [bus_(c2=12.0), metro_()]
    a = ctx.choose("family 1", fams)
    b = ctx.choose("family 2", fams)
    how = ctx.choose("modes", [0, 1])
    if how == 0 and a[0] == b[0]:
        ctx.prune()
    w = PW(city(n, shape="asym"), [(a[0], ms[0]) + a[1:], (b[0], ms[how]) + b[1:]])
    f = defaultdict(float)
    for i, ln in enumerate(w.lines):
        f[ln.id] = [4.0, 0.0, 9.0, 1.0, 2.0][i % 5]
    ctx.state((n, a, b, how))
    judge(ctx, w, f, "%s+%s of %d zones" % (a, b, n))


def unused(ctx):
    """modes declared without lines; networks without lines; lines taken out again"""
    g = city(ctx.choose("n", [1, 2]))
    w = World(g, [])
    ms = [bus_(c2=3.0), metro_()]
    steps = [ctx.choose("step %d" % i, ["mode bus", "mode metro", "line bus", "line metro", "drop bus line", "stop"]) for i in range(3)]
    f = defaultdict(float)
    for i, s in enumerate(steps):
        if s == "stop":
            break
        m = ms[0] if "bus" in s else ms[1]
        if s.startswith("mode"):
            w.net.add_transport_mode(m)
        elif s.startswith("line"):
            ni, si, nr, sr = line_spec(g, "radial1")
            rid = "l%d" % i
            w.net.add_route(Route(rid, m, _s(ni), _s(nr), _s(si), _s(sr)))
            w.lines.append(Line(rid, m, ni, si, nr, sr))
            f[rid] = 6.0
        else:
            mine = [ln for ln in w.lines if ln.mode is m]
            if not mine:
                ctx.prune()
            w.net.remove_route(mine[0].id)
            w.lines.remove(mine[0])
    w.modes = list(w.net.get_modes())
    ctx.state(("unused", tuple(steps)))
    judge(ctx, w, f, str(steps))


from world import _s

changes = changing(judge, [("d", 2), ("c2", 77.0), ("v", 11.0)])

HARNESSES = [("changes", changes), ("large city", large(judge)), ("sizes", sizes(judge)), ("dozens of lines", many(judge)), ("pairs", pairs), ("triples", triples), ("families", families), ("histories", unused), ("twins", twins(judge))]
BOUNDS = {"quick": "every pair of 26-29 line shapes in 3 cities, one or two modes, 5 frequency patterns; every ordered triple of 9 shapes x 8 running "
                   "subsets; all pairs of families for n in {2,4,6}; all 3-step building histories; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "n=8; 3 changes"}
ASSUMPTIONS = ["a street is equipped once per mode whatever the number and direction of the lines that use it"]
