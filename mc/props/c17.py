"""C17 what travellers spend: access, waiting, riding and transfers"""
from world import *
from bfs import observe
from c16 import FH, loads
from sidermit.optimization import UsersCost


def ref_users(w, r, f, fz, fv, ps):
    """hours of access, waiting, in vehicle, and number of transfers"""
    ta = te = tv = tr = 0.0
    md = {m.name: m for m in w.modes}
    ride = {(a, b): t for a, b, t, _, ty in ref_graph(w, r.f, ps.pt)[1] if ty == "ROUTE"}
    for o, d, v, shares, suc in r.ods:
        for s, sh in shares.items():
            m = md[s[1]]
            ta += v * sh / 100.0 * (m.tat / 60.0 + sh / 100.0 * w.width[o] / (4.0 * ps.va * m.d))
        fl = Flow(w, [(o, d, v, shares, suc)], f)
        for _, _, i, j, x in fl.moves:
            if i[0] == "s" and j[0] == "r":
                m = md[i[1]]
                tot = sum(f[q[1]] for q in suc[i] if q[0] == "r")
                te += x * m.theta / (tot / m.d)
            elif i[0] == "r" and j[0] == "r":
                tv += x * ride[i, j]
                m = w.line[i[1]].mode
                # those who stay on board at j wait for the others
                st = ("s", m.name, j[3])
                a, b = fz.get((j[1], j[2], st), 0.0), fv.get((j[1], j[2], st), 0.0)
                dwell = (max(a, b) if m.bya == 1 else a + b) * m.t / 3600.0
                tv += dwell * stay(x, suc, j)
            elif i[0] == "r" and j[0] == "s":
                m = w.line[i[1]].mode
                tv += x * 0.5 * fv.get((i[1], i[2], j), 0.0) * m.t / 3600.0
                if j[2] != d:
                    tr += x
            elif i[0] == "s" and j[0] == "c" and j[1] != d:
                ta += x * md[i[1]].tat / 60.0
            elif i[0] == "c" and j[0] == "s":
                ta += x * md[j[1]].tat / 60.0
    return ta, te, tv, tr


def stay(x, suc, n):
    """the strategy has one next step after a ride: alighting, or riding on"""
    return x if suc[n][0][0] == "r" else 0.0


def users(r, f, z, v):
    return UsersCost.resources_consumer(r.hs, r.vs, r.asg, r.ss, r.eg, r.ps.va, f, z, v)


MODS = {"plain": {}, "sequential bus": dict(bus=dict(bya=0, t=9.0), metro=dict(bya=1, t=4.0)), "waiting": dict(bus=dict(theta=1, tat=2, d=1)),
        "no wait": dict(bus=dict(theta=0, t=30.0, d=2))}


def body(ctx):
    net = ctx.choose("network", list(NETWORKS))
    mk = ctx.choose("modes", list(MODS))
    w = network(net, ctx.choose("city", ["twins", "ids", "asym", "sym"]) if ctx.thorough else "twins", **MODS[mk])
    fh = ctx.choose("strategy frequencies", list(FH) if ctx.thorough else ["uneven", "stopped"])
    f = w.freqs(FH[fh])
    pk = ctx.choose("passenger", list(PSETS))
    ps = passenger(**PSETS[pk])
    dm = ctx.choose("demand", list(DEMANDS))
    trips = trips_of(w, dm, f, ps)
    if not trips:
        ctx.prune()
    scale = ctx.choose("scale", [1.0, 40.0])
    trips = {k: x * scale for k, x in trips.items()}
    r = Run(w, f, ps, trips)
    what = "%s %s %s %s" % (net, mk, dm, fh)
    for fev in (f, w.freqs([x if f[ln.id] else 0.0 for ln, x in zip(w.lines, [40.0, 3.0, 17.0, 5.0, 90.0])])):
        z, v, l = loads(r, fev)
        fz, fv = flat(z), flat(v)
        before = observe([w.g, w.net, ps, r.ods, sorted(fev.items())])
        got = users(r, fev, z, v)
        ctx.step((what, scale))
        ctx.state((what, pk, scale, fev is f))
        want = ref_users(w, r, fev, fz, fv, ps)
        for nm, a, b in zip(("access time", "waiting time", "time in vehicle", "number of transfers"), got, want):
            ctx.close(a, b, "%s of the travellers (%s)" % (nm, what))
        cu = UsersCost().get_users_cost(r.hs, r.vs, r.asg, r.ss, r.eg, fev, ps, z, v)
        ctx.close(cu, want[0] * ps.spa + want[1] * ps.spw + want[2] * ps.spv + want[3] * ps.spt / 60.0 * ps.spv,
                  "cost of the travellers (%s)" % what)
        r.keyed()
        ctx.check(observe([w.g, w.net, ps, r.ods, sorted(fev.items())]) == before and flat(z) == fz and flat(v) == fv,
                  "the cost of the travellers changed its inputs")
        # empty tables of boardings: pure running, as in the documentation
        e = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
        got0 = users(r, fev, e, defaultdict(lambda: defaultdict(lambda: defaultdict(float))))
        want0 = ref_users(w, r, fev, {}, {}, ps)
        for nm, a, b in zip(("access time", "waiting time", "time in vehicle", "number of transfers"), got0, want0):
            ctx.close(a, b, "%s of the travellers without dwell times (%s)" % (nm, what))
        # accounting: every boarding beyond the first of a traveller is a transfer
        flow = Flow(w, r.ods, fev)
        ctx.close(got[3], flow.boardings - sum(trips.values()), "transfers differ from boardings less trips (%s)" % what, abs_=1e-6)
        ctx.validated()
    ctx.outcome = "transfers" if want[3] > 0 else "direct"


def spent(ctx, w, f, what):
    ps = passenger()
    for dm in ("all", "cross"):
        trips = trips_of(w, dm, f, ps)
        if trips:
            r = Run(w, f, ps, trips)
            z, v, l = loads(r, f)
            want = ref_users(w, r, f, flat(z), flat(v), ps)
            for nm, a, b in zip(("access time", "waiting time", "time in vehicle", "number of transfers"), users(r, f, z, v), want):
                ctx.close(a, b, "%s of the travellers (%s %s)" % (nm, what, dm))
            cu = UsersCost().get_users_cost(r.hs, r.vs, r.asg, r.ss, r.eg, f, ps, z, v)
            ctx.close(cu, want[0] * ps.spa + want[1] * ps.spw + want[2] * ps.spv + want[3] * ps.spt / 60.0 * ps.spv,
                      "cost of the travellers (%s %s)" % (what, dm))
            ctx.validated()


changes = changing(spent, [("theta", 0.1), ("v", 11.0), ("d", 2), ("tat", 3.0), ("t", 20.0), ("bya", 0)])

HARNESSES = [("changes", changes), ("large city", large(spent)), ("sizes", sizes(spent)), ("dozens of lines", many(spent)), ("travellers", body), ("twins", twins(spent))]
BOUNDS = {"quick": "18 networks x 4 mode parameter sets x 2 frequency patterns x 2 running patterns x 4 passenger profiles x 8 demands x 2 scales; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn",
          "thorough": "four cities, 3 frequency patterns; 3 changes"}
ASSUMPTIONS = ["a line that is part of a strategy runs", "strategies and shares are those reported by the system (judged by C13-C15)"]
