"""C14 elemental paths, refusal of unconnected demand, independence of queries"""
import itertools
from world import *
from bfs import observe, snapshot
from c13 import MENU, PS, w_mode


def dfs(start, dest, suc):
    """all paths start -> dest along the successor links"""
    out, stack = [], [[start]]
    while stack:
        p = stack.pop()
        if p[-1] == dest:
            out.append(tuple(p))
            continue
        for j in suc.get(p[-1], ()):
            if j in p:
                raise AssertionError("cycle in the strategy: %r" % (p + [j],))
            stack.append(p + [j])
    return out


def keyed(suc):
    r = {}
    for n in list(suc):
        for e in list(suc[n]):
            r.setdefault(key(n), []).append(key(e.nodej))
    return r


def check_paths(ctx, w, f, ps, hp, eg, o, d, graph, what):
    cn = city_nodes(eg)
    rl, _, _ = ref_labels(w, f, ps, o, d, graph)
    paths, lab, suc, fre = hp.get_hyperpath_OD(cn[o], cn[d])
    sk = keyed(suc)
    got = {key(s): [tuple(key(n) for n in p) for p in paths[s]] for s in list(paths)}
    for s in [k for k in graph[0] if k[0] == "s" and k[2] == o]:
        if rl[s] == INF:
            ctx.check(not got.get(s), "paths from a stop that does not reach the destination (%s)" % what, stop=s, paths=got.get(s))
            continue
        want = [(("c", o),) + p for p in dfs(s, ("c", d), sk)]
        ctx.check(len(set(got.get(s, []))) == len(got.get(s, [])), "a path is listed twice (%s)" % what, paths=got.get(s))
        ctx.equal(sorted(got.get(s, []), key=str), sorted(want, key=str), "paths from stop %s to %s (%s)" % (s, d, what))
    for s in got:
        ctx.check(s[0] == "s" and s[2] == o, "paths are filed under a stop of another place", stop=s)
    ctx.validated()
    return max([len(p) for p in got.values()] + [0])


def check_costs(ctx, w, f, ps, hp, eg, o, d, graph, what):
    """paths, and the costs told along with them"""
    check_paths(ctx, w, f, ps, hp, eg, o, d, graph, what)
    cn = city_nodes(eg)
    lab = hp.get_hyperpath_OD(cn[o], cn[d])[1]
    rl, _, _ = ref_labels(w, f, ps, o, d, graph)
    for n in list(lab):
        k = key(n)
        add = w_mode(w, k[1]).tat / 60.0 * ps.pa / ps.pv if k[0] == "s" and k[2] == o else 0.0
        ctx.close(lab[n], rl[k] + add, "cost of %s told with the paths (%s)" % (k, what))


def paths(ctx):
    a = ctx.choose("line 1", MENU)
    b = ctx.choose("line 2", [None] + [x for x in MENU if x > a])
    c = ctx.choose("line 3", [None] + [x for x in MENU if x > b]) if b and (ctx.thorough or a in ("radial1", "dia-short", "cir-I")) \
        else None
    k = ctx.choose("modes", [(0, 0, 0), (0, 1, 0), (0, 1, 1)] if b else [(0, 0, 0)])
    ms = [bus_(tat=1), metro_()]
    w = World(city(3, shape="ids" if c or k[1] else "twins"), [(x, ms[i]) for x, i in zip((a, b, c), k) if x])
    f = w.freqs([5.0, 13.0, 8.0])
    ps = passenger(pt=6)
    graph = ref_graph(w, f, ps.pt)
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    most = 0
    served = sorted(x[1] for x in graph[0] if x[0] == "c")
    for o in served:
        for d in served:
            if o != d:
                ctx.step((a, b, c, k, o, d))
                ctx.state((a, b, c, k, o, d))
                most = max(most, check_paths(ctx, w, f, ps, hp, eg, o, d, graph, "%s+%s+%s %s" % (a, b, c, k)))
    ctx.outcome = "up to %d paths" % most


NETS = {"radial1": [("radial1", 0)], "express1+ring12": [("express1", 0), ("ring12", 1)], "loop-skip": [("loop-skip", 0)],
        "cir-I": [("cir-I", 0)], "two islands": [("feeder1", 0), ("feeder2", 1)], "dia-short-express": [("dia-short-express", 0)],
        "stopped": [("radial1", 0), ("radial2", 0)], "return-express": [("return-express", 1)],
        "two modes": [("radial1", 0), ("dia-short", 1)]}


def make(name, shape="ids"):
    ms = [bus_(tat=1), metro_()]
    w = World(city(2, shape=shape), [(x, ms[i]) for x, i in NETS[name]])
    f = w.freqs([0.0, 6.0] if name == "stopped" else [5.0, 13.0])
    return w, f


def connected(w, f, ps, o, d):
    graph = ref_graph(w, f, ps.pt)
    if ("c", o) not in graph[0] or ("c", d) not in graph[0]:
        return False
    rl, _, _ = ref_labels(w, f, ps, o, d, graph)
    return any(rl[s] < INF for s in graph[0] if s[0] == "s" and s[2] == o)


def check_all(ctx, w, f, ps, hp, eg, trips, what):
    mat = od_matrix(w, trips)
    ok = all(v == 0 or connected(w, f, ps, w.sym[a], w.sym[b]) for (a, b), v in trips.items())
    before = observe(mat)
    if not ok:
        ctx.rejects(lambda: hp.network_validator(mat), "demand without connection was accepted (%s)" % what, REJECT)
        ctx.rejects(lambda: hp.get_all_hyperpaths(mat), "demand without connection was assigned (%s)" % what, REJECT)
        ctx.validated()
        return False
    ctx.check(hp.network_validator(mat) is True, "a connected demand is not valid (%s)" % what)
    hs, ls, ss, fs, vs = hp.get_all_hyperpaths(mat)
    want = {(w.sym[a], w.sym[b]): v for (a, b), v in trips.items() if v}
    for name, dct in (("paths", hs), ("labels", ls), ("strategies", ss), ("frequencies", fs), ("trips", vs)):
        got = {(key(a)[1], key(b)[1]) for a in list(dct) for b in list(dct[a])}
        extra = got - set(want)
        if name in ("strategies", "frequencies", "labels", "paths", "trips"):
            ctx.check(set(want) <= got and not extra, "pairs with %s (%s)" % (name, what), got=got, want=want)
    cn = city_nodes(eg)
    for (o, d), v in want.items():
        a, b = cn[o], cn[d]
        ctx.close(vs[a][b], v, "trips of a pair (%s)" % what)
        p, lab, suc, fre = hp.get_hyperpath_OD(a, b)
        ctx.equal({key(s): [tuple(map(key, q)) for q in hs[a][b][s]] for s in list(hs[a][b])},
                  {key(s): [tuple(map(key, q)) for q in p[s]] for s in list(p) if p[s]}, "paths of a pair (%s)" % what)
        rl, _, _ = ref_labels(w, f, ps, o, d)
        for n in list(ls[a][b]):
            k = key(n)
            add = w_mode(w, k[1]).tat / 60.0 * ps.pa / ps.pv if k[0] == "s" and k[2] == o else 0.0
            ctx.close(ls[a][b][n], rl[k] + add, "cost of %s in the summary (%s)" % (k, what))
        ctx.equal(keyed(ss[a][b]), keyed(suc), "strategy of a pair (%s)" % what)
    ctx.check(observe(mat) == before, "the demand matrix was changed")
    ctx.validated()
    return True


def refusal(ctx):
    """every single pair and every two pairs of places, on networks that leave places out"""
    name = ctx.choose("network", list(NETS))
    w, f = make(name)
    ps = passenger()
    P = [(a, b) for a in w.sym for b in w.sym if a != b]
    x = ctx.choose("pair", P)
    v = ctx.choose("trips", [10.0, 1e-9])
    y = ctx.choose("second pair", [None] + [q for q in P if q > x] if ctx.thorough else [None, ("P1", "S1"), ("S1", "P1"), ("C", "S2"),
                                                                                      ("P2", "C")])
    trips = {x: v}
    if y and y != x:
        trips[y] = 3.0
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    ctx.step((name, trips))
    ctx.state((name, sorted(trips.items())))
    ok = check_all(ctx, w, f, ps, hp, eg, trips, "%s %s" % (name, trips))
    ctx.outcome = "accepted" if ok else "refused"


def many_modes(ctx):
    """the rule on modes: at most two, one of them with a single parallel line"""
    k = ctx.choose("modes", [1, 2, 3])
    ds = [ctx.choose("d%d" % i, [1, 2, 4]) for i in range(k)]
    apart = ctx.flag("each mode has places of its own")
    g = city(3 if apart else 2)
    ms = [bus_(name="m%d" % i, d=x) for i, x in enumerate(ds)]
    names = ["feeder1", "feeder2", "feeder3"] if apart else ["radial1", "radial2", "dia"]
    routes = []
    for i in range(k):
        ni, si, nr, sr = line_spec(g, names[i])
        routes.append(Route("r%d" % i, ms[i], _q(ni), _q(nr), _q(si), _q(sr)))
    ps = passenger()
    hp = Hyperpath(ExtendedGraph(g, routes, ps.pt, None), ps)
    m = defaultdict(lambda: defaultdict(float))
    m[1][2 if apart else 0] = v = ctx.choose("trips", [5.0, 0.0])
    ok = k == 1 or (k == 2 and 1 in ds)
    ctx.step((k, ds, apart))
    ctx.state((k, ds, apart, v))
    if ok:
        ctx.check(hp.network_validator(m) is True, "a network with valid modes is refused")
        hp.get_all_hyperpaths(m)
    else:
        ctx.rejects(lambda: hp.network_validator(m), "a network with modes %s was accepted" % (ds,), REJECT)
        ctx.rejects(lambda: hp.get_all_hyperpaths(m), "a network with modes %s was assigned" % (ds,), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if ok else "refused"


def _q(x):
    return ",".join(map(str, x))


class Queries:
    """histories of queries on one strategy object: every answer is the answer of a fresh object"""

    def __init__(self, net, bound):
        self.name = "queries " + net
        self.net, self.bound, self.unmerged = net, bound, 2

    def depth(self, tier):
        return self.bound + (1 if tier == "thorough" else 0)

    def ops(self, tier):
        P = [("P1", "C"), ("C", "P1"), ("P1", "S1"), ("S1", "S2"), ("P2", "C"), ("C", "S2"), ("P2", "P1")]
        return [("all", (p,)) for p in P] + [("all", (P[0], P[1])), ("all", (P[0], P[4])), ("all", ())] + [("one", p) for p in P] + [("other", q, P[0]) for q in ("passenger", "frequencies")]

    def fresh(self, tier):
        w, f = make(self.net)
        w.f = f
        w.ps = passenger()
        w.eg = ExtendedGraph(w.g, w.net.get_routes(), w.ps.pt, f)
        w.hp = Hyperpath(w.eg, w.ps)
        w.graph = ref_graph(w, f, w.ps.pt)
        # other travellers on the same graph, and the same travellers on another graph
        w.ps2 = passenger(pw=31.0, pa=1.5)
        w.f2 = w.freqs([9.0, 2.0])
        w.eg2 = ExtendedGraph(w.g, w.net.get_routes(), w.ps.pt, w.f2)
        w.others = {"passenger": (f, w.ps2, Hyperpath(w.eg, w.ps2), w.eg, w.graph),
                    "frequencies": (w.f2, w.ps, Hyperpath(w.eg2, w.ps), w.eg2, ref_graph(w, w.f2, w.ps.pt))}
        return w

    def apply(self, ctx, w, op):
        if op[0] == "all":
            check_all(ctx, w, w.f, w.ps, w.hp, w.eg, {p: 4.0 for p in op[1]}, "%s %s" % (self.net, op))
        elif op[0] == "other":
            f, ps, hp, eg, graph = w.others[op[1]]
            o, d = w.sym[op[2][0]], w.sym[op[2][1]]
            if ("c", o) in graph[0] and ("c", d) in graph[0]:
                check_costs(ctx, w, f, ps, hp, eg, o, d, graph, "%s %s" % (self.net, op))
        else:
            o, d = w.sym[op[1][0]], w.sym[op[1][1]]
            if ("c", o) in w.graph[0] and ("c", d) in w.graph[0]:
                check_costs(ctx, w, w.f, w.ps, w.hp, w.eg, o, d, w.graph, "%s %s" % (self.net, op))

    def key(self, w):
        return snapshot([w.eg, w.ps, w.g, w.net, w.hp, w.eg2, w.ps2, w.others["passenger"][2], w.others["frequencies"][2]])


def every_pair(ctx, w, f, what):
    ps = passenger(pt=6)
    graph = ref_graph(w, f, ps.pt)
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    served = sorted(x[1] for x in graph[0] if x[0] == "c")
    for o in served:
        for d in served:
            if o != d and (len(served) < 12 or (o + 2 * d) % 9 == 0):
                check_paths(ctx, w, f, ps, hp, eg, o, d, graph, what)
    name = {v: k for k, v in w.sym.items()}
    trips = {(name[a], name[b]): 3.0 for a, b in zip(served, served[1:] + served[:1])}
    check_all(ctx, w, f, ps, hp, eg, trips, what)


def gaps(ctx):
    """a large city in which one place or one line is left out: every demand to and from it is refused, the others are not"""
    n = ctx.choose("zones", [10, 13])
    left = ctx.choose("left out", list(range(1, n + 1)))
    how = ctx.choose("how", ["no stops", "no line", "island"])
    md = bus_(tat=0.3)
    lines = []
    g = city(n, shape=ctx.choose("city", ["sym", "ids"]) if left == n else "sym")
    for z in range(1, n + 1):
        LINES["r%d" % z], LINES["f%d" % z], LINES["x%d" % z] = "P%d S%d C" % (z, z), "P%d S%d" % (z, z), "P%d S%d C|P%d C" % (z, z, z)
        if z != left:
            lines.append(("r%d" % z, md))
        elif how != "no line":
            lines.append((("x" if how == "no stops" else "f") + str(z), md))
    w = World(g, lines)
    f = w.freqs([5.0 + i for i in range(len(lines))])
    ps = passenger()
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    p, s, q = "P%d" % left, "S%d" % left, "P%d" % (left % n + 1)
    many = {("P%d" % z, "C"): 4.0 for z in range(1, n + 1) if z != left}
    ctx.state((n, left, how))
    for i, extra in enumerate(([(s, "C")], [("C", s)], [(q, s)], [(p, "C")], [(p, s)], [("C", p)], [])):
        ctx.step(extra)
        check_all(ctx, w, f, ps, hp, eg, {**(many if i % 2 else {}), **{x: 6.0 for x in extra}}, "%s of zone %d of %d, %s" % (how, left, n, extra))


changes = changing(every_pair, [("theta", 0.1), ("v", 11.0)])


def many_lines(ctx):
    """lines that run together by the dozen, with and without a change on the way"""
    k = ctx.choose("lines to the centre", [1, 2, 3, 5, 8, 9, 12] + ([16, 33] if ctx.thorough else []))
    j = ctx.choose("lines from the centre", [0, 1, 2, 4, 7, 11] + ([15] if ctx.thorough else []))
    md = bus_(theta=1.0)
    w = World(city(2, shape="ids"), [("radial1", md)] * k + [("radial2", md)] * j, ["a%d" % i for i in range(k)] + ["b%d" % i for i in range(j)])
    m = w.sym
    f = defaultdict(float)
    for i, ln in enumerate(w.lines):
        f[ln.id] = 2.0 + 0.25 * i if ctx.thorough or i % 3 else 2.0
    ps = passenger(pt=6)
    graph = ref_graph(w, f, ps.pt)
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    most = 0
    for a, b in (("P1", "C"), ("P1", "S1"), ("C", "P1"), ("S1", "C"), ("P1", "P2"), ("P2", "S1"))[:6 if j else 4]:
        ctx.step((k, j, a, b))
        ctx.state((k, j, a, b))
        most = max(most, check_paths(ctx, w, f, ps, hp, eg, m[a], m[b], graph, "%d and %d lines" % (k, j)))
    check_all(ctx, w, f, ps, hp, eg, {("P1", "P2"): 5.0} if j else {("P1", "C"): 5.0}, "%d and %d lines" % (k, j))
    ctx.outcome = "up to %d paths" % most


HARNESSES = [("changes", changes), ("large city", large(every_pair)), ("sizes", sizes(every_pair)), ("dozens of lines", many(every_pair)), ("gaps", gaps), ("many lines", many_lines), ("paths", paths), ("refusal", refusal), ("modes", many_modes), ("twins", twins(every_pair))]
MODELS = [Queries("radial1", 3), Queries("two islands", 2), Queries("loop-skip", 2), Queries("two modes", 2)]
BOUNDS = {"quick": "paths of every pair on all sets of <=2 (3 bases: 3) of 16 line shapes, one and two modes; every single and two-pair "
                   "demand on 9 networks with gaps; every mode combination with d in {1,2,4}; all query histories of length <=2..3; all 2-step histories of changes (11-13 changes) of 3 networks; 1..12 x 0..11 lines in common; cities of 10 and 13 zones with any one zone left out in three ways; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn",
          "thorough": "all sets of 3 lines, all two-pair demands, histories one longer; 3 changes"}
ASSUMPTIONS = ["trips from a place to itself are not part of the property"]
