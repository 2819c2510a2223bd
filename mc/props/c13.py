"""C13 expected travel costs and optimal strategies (hyperpaths) of every origin-destination pair"""
import itertools
from world import *
from bfs import observe

MENU = ["radial1", "radial2", "express1", "dia", "dia-skipC", "tan", "ring12", "dia-short", "loop", "loop-back", "one-way-express",
        "feeder1", "cir-I", "cir-R", "short2", "return-express"]


def check_pair(ctx, w, f, ps, graph, hp, eg, o, d, what):
    cn = city_nodes(eg)
    suc, lab, fre = hp.build_hyperpath_graph(cn[o], cn[d])
    rl, board, out = ref_labels(w, f, ps, o, d, graph)
    kw = ps.pw / ps.pv
    edge_of = {(e.nodei, e.nodej): e for e in eg.get_extended_graph_edges()}
    nd = eg.get_extended_graph_nodes()
    allnodes = []
    for c in list(nd):
        allnodes.append(c)
        for s in list(nd[c]):
            allnodes.append(s)
            allnodes += list(nd[c][s])
    for n in allnodes:
        k = key(n)
        if k not in rl:
            continue
        want = rl[k]
        if k[0] == "s" and k[2] == o:
            want += w_mode(w, k[1]).tat / 60.0 * ps.pa / ps.pv
        got = lab[n]
        ctx.close(got, want, "cost from %s to %s (%s)" % (k, d, what))
        sl = list(suc[n])
        sk = [(key(e.nodei), key(e.nodej)) for e in sl]
        ctx.check(len(set(sk)) == len(sk), "a link is taken twice at %s" % (k,), links=sk)
        ctx.check(all(a == k for a, _ in sk), "the strategy at %s uses a link that starts elsewhere" % (k,), links=sk)
        if k == ("c", d) or rl[k] == INF:
            ctx.check(not sl, "there is a next step at %s (%s)" % (k, "destination" if rl[k] == 0 else "destination out of reach"),
                      links=sk)
            continue
        ctx.check(bool(sl), "no next step at %s although the destination can be reached (%s)" % (k, what))
        opts = {j: (t, fr, ty) for j, t, fr, ty in out[k]}
        ctx.check(all(b in opts for _, b in sk), "the strategy at %s uses a link that does not exist or enters the origin" % (k,),
                  links=sk)
        types = {opts[b][2] for _, b in sk}
        if types == {"BOARDING"}:
            fs = sum(opts[b][1] for _, b in sk)
            ctx.check(all(opts[b][1] > 0 for _, b in sk), "a line that does not run is boarded at %s" % (k,), links=sk)
            c = (w_mode(w, k[1]).theta * kw + sum(opts[b][1] * (opts[b][0] + rl[b]) for _, b in sk)) / fs
            ctx.close(c, rl[k], "the lines boarded at %s are not an optimal set (%s)" % (k, what))
            ctx.close(fre[n], fs, "joint frequency of the lines boarded at %s" % (k,))
        else:
            ctx.check(len(sk) == 1, "several next steps at %s" % (k,), links=sk)
            b = sk[0][1]
            ctx.close(opts[b][0] + rl[b], rl[k], "the next step at %s is not optimal (%s)" % (k, what))
    ctx.validated()
    return len([1 for n in allnodes if len(suc[n]) > 1])


def w_mode(w, name):
    return [m for m in w.modes if m.name == name][0]


def explore(ctx, w, f, ps, what, pairs=None):
    graph = ref_graph(w, f, ps.pt)
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    served = sorted(c[1] for c in graph[0] if c[0] == "c")
    before = observe([w.g, w.net, ps, eg.get_extended_graph_edges()])
    multi = 0
    for o in served:
        for d in served:
            if o == d or (pairs and (o, d) not in pairs):
                continue
            ctx.step((what, o, d))
            ctx.state((what, o, d))
            multi += check_pair(ctx, w, f, ps, graph, hp, eg, o, d, what)
    ctx.check(observe([w.g, w.net, ps, eg.get_extended_graph_edges()]) == before, "computing the strategies changed their inputs")
    return multi


PS = {"default": {}, "equal": dict(pv=1, pw=1, pa=1, pt=0), "hurry": dict(pv=1, pw=0, pa=3, pt=5),
      "patient": dict(pv=1, pw=9, pa=.1, pt=40), "no access": dict(pv=2, pw=4, pa=0, pt=16)}


def single(ctx):
    """one mode, up to three lines"""
    a = ctx.choose("line 1", MENU)
    b = ctx.choose("line 2", [None] + [x for x in MENU if x > a])
    c = ctx.choose("line 3", [None] + [x for x in MENU if x > b]) if b and (ctx.thorough or a in ("radial1", "dia", "express1",
                                                                                                 "dia-short")) else None
    m = ctx.choose("mode", [dict(), dict(theta=0, tat=2)] + ([dict(theta=1, d=1)] if ctx.thorough else []))
    md = bus_(**m)
    shape = "sym" if a < "e" else "ids"
    w = World(city(3, shape=shape), [(x, md) for x in (a, b, c) if x])
    multi = 0
    for fv in ([28.0, 28.0, 28.0], [4.0, 17.0, 9.0], [11.0, 0.0, 2.0], [0.02, 0.3, 0.001]):
        if c and fv[0] == 28.0:
            continue
        f = w.freqs(fv)
        ps = passenger(**PS[{28.0: "default", 4.0: "patient", 11.0: "hurry", 0.02: "default"}[fv[0]]])
        multi += explore(ctx, w, f, ps, "%s+%s+%s %s" % (a, b, c, fv))
    ctx.outcome = "choice of lines" if multi else "no choice"


def two_modes(ctx):
    """two modes, up to three lines, every passenger profile"""
    a = ctx.choose("bus line", ["radial1", "dia", "express1", "dia-skipC", "cir-I", "loop-back", "feeder1"])
    b = ctx.choose("metro line", ["dia-short", "dia", "short2", "ring12", "loop", "cir-R", "radial1", "tan"])
    c = ctx.choose("third line", [None, ("radial2", 0), ("tan", 1), ("express1", 1), ("short1", 0)])
    pk = ctx.choose("passenger", list(PS))
    bus = bus_(theta=ctx.choose("theta", [0.7, 0]), tat=0.5)
    metro = metro_()
    ls = [(a, bus), (b, metro)]
    if c:
        x = (c[0], [bus, metro][c[1]])
        if x in ls:
            ctx.prune()
        ls.append(x)
    w = World(city(3, shape="asym" if c else "twins"), ls)
    multi = 0
    for fv in ([28.0, 28.0, 28.0], [3.0, 40.0, 11.0]) if ctx.thorough else ([28.0, 13.0, 5.0],):
        multi += explore(ctx, w, w.freqs(fv), passenger(**PS[pk]), "%s+%s+%s %s %s" % (a, b, c, fv, pk))
    ctx.outcome = "choice of lines" if multi else "no choice"


def common_lines(ctx):
    """five lines that serve the same pair: every combination of running frequencies"""
    names = ["radial1", "express1", "one-way-express", "loop-back", "dia"]
    md = bus_(theta=ctx.choose("theta", [0.7, 1, 0.5, 0]), d=1, tat=1)
    fs = [ctx.choose("f " + x, [0.0, 2.0, 9.0, 30.0] if ctx.thorough else [0.0, 2.0, 30.0]) for x in names]
    w = World(city(2, shape="sym"), [(x, md) for x in names])
    m = w.sym
    multi = explore(ctx, w, w.freqs(fs), passenger(), "common lines %s" % fs,
                    {(m["P1"], m["C"]), (m["S1"], m["C"]), (m["C"], m["P1"]), (m["P1"], m["P2"])})
    ctx.outcome = "choice of lines" if multi else "no choice"


def families(ctx):
    """the predefined families on larger cities"""
    from c12 import PW
    n = ctx.choose("n", [2, 4, 5, 8] if ctx.thorough else [2, 4])
    ms = [bus_(), metro_()]
    sets = [[("feeder", ms[0], None, None, None), ("circular", ms[1], None, None, None)],
            [("radial", ms[0], None, False, False), ("radial", ms[1], None, True, False)],
            [("feeder", ms[0], None, None, None), ("radial", ms[1], None, True, False)],
            [("diametral", ms[0], n // 2, False, True), ("tangential", ms[0], 1, True, False), ("feeder", ms[1], None, None, None)],
            [("diametral", ms[1], 1, True, False), ("radial", ms[0], None, False, True)],
            [("radial", ms[0], None, False, True), ("radial", ms[1], None, False, False), ("circular", ms[0], None, None, None)]]
    k = ctx.choose("families", list(range(len(sets))))
    w = PW(city(n, shape=ctx.choose("shape", ["sym", "asym"])), sets[k])
    o = ctx.choose("origin", ["C", "P1", "S1", "P2", "S%d" % n])
    f = defaultdict(float)
    for i, ln in enumerate(w.lines):
        f[ln.id] = 28.0 if ctx.tier == "x" else 5.0 + 3 * i
    m = w.sym
    served = {c[1] for c in ref_graph(w, f, 1)[0] if c[0] == "c"}
    if m[o] not in served:
        ctx.prune()
    multi = explore(ctx, w, f, passenger(), "families %d of %d zones from %s" % (k, n, o), {(m[o], x) for x in served})
    ctx.outcome = "choice of lines" if multi else "no choice"


def far_pairs(ctx, w, f, what):
    served = [w.sym[k] for k in ("P1", "S1", "P6", "S7", "P9", "C", "P7", "P2") if k in w.sym and ("c", w.sym[k]) in ref_graph(w, f, 1)[0]]
    explore(ctx, w, f, passenger(), what, {(o, d) for o in served for d in served[::2]})


changes = changing(lambda ctx, w, f, what: explore(ctx, w, f, passenger(), what), [("v", 11.0), ("tat", 3.0), ("theta", 0.1), ("d", 2)])

HARNESSES = [("changes", changes), ("large city", large(far_pairs)), ("sizes", sizes(far_pairs)), ("dozens of lines", many(far_pairs)), ("one mode", single), ("two modes", two_modes), ("common lines", common_lines), ("families", families), ("twins", twins(far_pairs))]
BOUNDS = {"quick": "all sets of <=2 (4 bases: <=3) lines of 16 shapes in one mode with 4 frequency patterns, 7x8x5 two-mode networks x "
                   "5 passenger profiles x 2 regularities, 5 common lines x 3^5 frequencies, 6 family mixes for n in {2,4}; every "
                   "served origin-destination pair; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "every set of 3 lines, n up to 8, 4^5 frequencies; 3 changes"}
ASSUMPTIONS = ["positive value of in-vehicle time", "equal-cost strategies may be chosen either way: the chosen one is checked to "
               "reach the optimal cost"]
