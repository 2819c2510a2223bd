"""closed systems with lines: a city, modes, lines, frequencies, demand, passenger - and their reference models

Everything is identified by keys that do not depend on the implementation's objects:
  ("c", city node id)   ("s", mode name, city node id)   ("r", line id, direction, city node id)
"""
import re
from collections import defaultdict

from bfs import observe
from common import *
from sidermit.optimization.preoptimization import (ExtendedGraph, Hyperpath, Assignment, CityNode, StopNode, RouteNode)
from sidermit.optimization.preoptimization.extended_graph import ExtendedEdgesType

INF = float("inf")


def mode(name="bus", d=4, theta=0.7, tat=0, bya=1, v=20.0, t=2.5, kmax=160.0, fmax=150.0, co=8.61, c1=0.15, c2=0.0,
         fini=28.0):
    return TransportMode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini)


def bus_(**k):
    return mode(**dict(dict(name="bus"), **k))


def metro_(**k):
    return mode(**dict(dict(name="metro", d=1, theta=0.5, tat=1, bya=0, v=40.0, t=0.33, kmax=1440.0, fmax=40.0, co=80.91,
                            c1=0.3, c2=933.15), **k))


def passenger(**k):
    a = dict(va=4.0, pv=2.74, pw=5.48, pa=8.22, pt=16, spv=2.5, spw=5.0, spa=8.0, spt=12)
    a.update(k)
    return Passenger(**a)


# ------------------------------------------------------------------ lines
# symbolic: C, P<z>, S<z>; forward nodes | forward stops | return nodes | return stops (return defaults to the reverse)
LINES = {
    "feeder1": "P1 S1",
    "feeder2": "P2 S2",
    "radial1": "P1 S1 C",
    "radial2": "P2 S2 C",
    "express1": "P1 S1 C|P1 C",
    "express2": "P2 S2 C|P2 C",
    "short1": "S1 C",
    "short2": "S2 C",
    "dia": "P1 S1 C S2 P2",
    "dia-express": "P1 S1 C S2 P2|P1 P2",
    "dia-skipC": "P1 S1 C S2 P2|P1 S1 S2 P2",
    "dia-short": "S1 C S2",
    "dia-short-express": "S1 C S2|S1 S2",
    "tan": "P1 S1 S2 P2",
    "tan-express": "P1 S1 S2 P2|P1 P2",
    "ring12": "S1 S2",
    # return along another path / with other stops
    "loop": "S1 C S2||S2 S1",
    "loop-back": "P1 S1 C||C S2 S1 P1",
    "loop-skip": "P1 S1 C||C S2 S1 P1|C P1",
    "one-way-express": "P1 S1 C|P1 C|C S1 P1|C S1 P1",
    "return-express": "P1 S1 C S2 P2|P1 S1 C S2 P2|P2 S2 C S1 P1|P2 C P1",
    "outbound-skips": "P1 S1 C S2|P1 C S2|S2 C S1 P1|S2 S1 P1",
    "reversed": "C S1 P1",
}


def sym(g):
    zs = g.get_zones()
    m = {"C": int(g.get_cbd().id)}
    for i, z in enumerate(zs):
        m["P%d" % (i + 1)] = int(z.periphery.id)
        m["S%d" % (i + 1)] = int(z.subcenter.id)
    return m


def line_spec(g, name):
    m = sym(g)
    f = (LINES[name] + "|||").split("|")
    ni = [m[x] for x in f[0].split()]
    si = [m[x] for x in f[1].split()] or list(ni)
    nr = [m[x] for x in f[2].split()] or ni[::-1]
    sr = [m[x] for x in f[3].split()] or (si[::-1] if not f[2].split() else list(nr))
    return ni, si, nr, sr


def _s(q):
    return ",".join(map(str, q))


class Line:
    """reference view of one line"""

    def __init__(self, rid, md, ni, si, nr, sr, circular=False):
        self.id, self.mode, self.nodes, self.stops, self.circular = rid, md, {"I": ni, "R": nr}, {"I": si, "R": sr}, circular


class World:
    def __init__(self, g, lines, ids=None):
        """lines: [(name, mode)]; name in LINES or "cir-I" / "cir-R"; ids: ids of the lines that are not circular"""
        self.g = g
        self.net = TransportNetwork(g)
        self.lines = []
        self.pos = {int(o.id): (float(o.x), float(o.y)) for o in g.get_nodes()}
        self.width = {int(o.id): float(o.width) for o in g.get_nodes()}
        self.ids = [int(o.id) for o in g.get_nodes()]
        self.sym = sym(g)
        for k, (name, md) in enumerate(lines):
            self.put("%s/%s" % (name, md.name) if ids is None else ids[k], name, md)
        self.modes = []
        for ln in self.lines:
            if ln.mode not in self.modes:
                self.modes.append(ln.mode)

    def put(self, rid, name, md):
        """enter a line into the network"""
        g = self.g
        if name.startswith("cir"):
            a, b = self.net.get_circular_routes(md)
            r = a if name == "cir-I" else b
            zs = [int(z.subcenter.id) for z in g.get_zones()]
            if name == "cir-I":
                q = zs + zs[:1]
                ln = Line(r.id, md, q, q, [], [], True)
            else:
                q = zs[::-1] + zs[-1:]
                ln = Line(r.id, md, [], [], q, q, True)
        else:
            ni, si, nr, sr = line_spec(g, name)
            r = Route(rid, md, _s(ni), _s(nr), _s(si), _s(sr))
            ln = Line(rid, md, ni, si, nr, sr)
        ln.shape = name
        self.net.add_route(r)
        self.lines.append(ln)
        self.line = {ln.id: ln for ln in self.lines}

    def drop(self, ln):
        self.net.remove_route(ln.id)
        self.lines.remove(ln)
        del self.line[ln.id]

    def dist(self, a, b):
        return math.dist(self.pos[a], self.pos[b])

    def freqs(self, values):
        f = defaultdict(float)
        for ln, v in zip(self.lines, values):
            f[ln.id] = v
        return f


# ------------------------------------------------------------------ reference extended graph
def ref_graph(w, f, tp):
    """(set of node keys, [(key i, key j, hours, frequency, type)])"""
    nodes, edges = set(), []
    served = {}
    for ln in w.lines:
        for d in "IR":
            for s in ln.stops[d]:
                served.setdefault((ln.mode.name, s), ln.mode)
    for (m, c), md in served.items():
        nodes |= {("c", c), ("s", m, c)}
        edges.append((("c", c), ("s", m, c), md.tat / 60.0, INF, "ACCESS"))
        edges.append((("s", m, c), ("c", c), md.tat / 60.0, INF, "ACCESS"))
    for ln in w.lines:
        m, md = ln.mode.name, ln.mode
        fr = (md.fini if f is None else f[ln.id]) / md.d
        for d in "IR":
            st, nd = ln.stops[d], ln.nodes[d]
            if not st:
                continue
            for s in set(st):
                nodes.add(("r", ln.id, d, s))
                if ln.circular or s != nd[-1]:
                    edges.append((("s", m, s), ("r", ln.id, d, s), 0.0, fr, "BOARDING"))
                if ln.circular or s != nd[0]:
                    edges.append((("r", ln.id, d, s), ("s", m, s), tp / 60.0, INF, "ALIGHTING"))
            at = 0
            for a, b in zip(st, st[1:]):
                # ride from a to b along the nodes of the line
                i = nd.index(a, at)
                j = nd.index(b, i + 1)
                length = sum(w.dist(x, y) for x, y in zip(nd[i:j], nd[i + 1:j + 1]))
                edges.append((("r", ln.id, d, a), ("r", ln.id, d, b), length / md.v, INF, "ROUTE"))
                at = j
    return nodes, edges


def key(o):
    if isinstance(o, CityNode):
        return ("c", int(o.graph_node.id))
    if isinstance(o, StopNode):
        return ("s", o.mode.name, int(o.city_node.graph_node.id))
    if isinstance(o, RouteNode):
        return ("r", o.route.id, o.direction, int(o.stop_node.city_node.graph_node.id))
    raise TypeError(type(o))


def view_nodes(eg):
    """{city key: {stop key: [route keys]}} as reported by the implementation"""
    n = eg.get_extended_graph_nodes()
    return {key(c): {key(s): [key(r) for r in n[c][s]] for s in list(n[c])} for c in list(n)}


def view_edges(eg):
    return [(key(e.nodei), key(e.nodej), e.t, e.f, e.type.name) for e in eg.get_extended_graph_edges()]


def city_nodes(eg):
    return {int(c.graph_node.id): c for c in eg.get_extended_graph_nodes()}


# ------------------------------------------------------------------ reference hyperpath labels
def ref_labels(w, f, ps, o, d, graph=None):
    """expected cost (hours in vehicle) from every node to city d when city o cannot be crossed"""
    nodes, edges = graph or ref_graph(w, f, ps.pt)
    md = {m.name: m for m in w.modes}
    out = defaultdict(list)
    for e in edges:
        if e[0] == ("c", o) or e[1] == ("c", o):
            continue
        i, j, t, fr, ty = e
        if ty == "ACCESS":
            t = t * ps.pa / ps.pv
        elif ty == "ALIGHTING" and j[2] == d:
            t = 0.0
        out[i].append((j, t, fr, ty))
    lab = {n: INF for n in nodes}
    lab[("c", d)] = 0.0
    kw = ps.pw / ps.pv
    board = {n: INF for n in nodes}
    while True:
        ch = False
        for n in nodes:
            if n == ("c", d):
                continue
            best = INF
            opts = []
            for j, t, fr, ty in out[n]:
                if ty == "BOARDING":
                    if fr > 0 and lab[j] < INF:
                        opts.append((fr, t + lab[j]))
                else:
                    best = min(best, t + lab[j])
            b = INF
            if len(opts) <= 5:
                subs = ([opts[i] for i in range(len(opts)) if k >> i & 1] for k in range(1, 1 << len(opts)))
            else:                       # some first lines in the order of their costs make the best set
                opts.sort(key=lambda x: x[1])
                subs = (opts[:i + 1] for i in range(len(opts)))
            for sub in subs:
                fs = sum(x[0] for x in sub)
                c = (md[n[1]].theta * kw + sum(x[0] * x[1] for x in sub)) / fs
                b = min(b, c)
            board[n] = b
            best = min(best, b)
            if best < lab[n] - 1e-13:
                lab[n] = best
                ch = True
        if not ch:
            break
    return lab, board, out


# ------------------------------------------------------------------ demand
def demand(w, trips):
    """trips: {(sym o, sym d): v}"""
    dm = Demand(w.g)
    for (a, b), v in trips.items():
        dm.change_vij(w.sym[a], w.sym[b], v)
    return dm


def od_matrix(w, trips):
    m = defaultdict(lambda: defaultdict(float))
    for i in w.ids:
        for j in w.ids:
            m[i][j] = 0.0
    for (a, b), v in trips.items():
        m[w.sym[a]][w.sym[b]] = v
    return m


# ------------------------------------------------------------------ assignment pipeline of the implementation
class Run:
    """strategies and shares of a demand computed by the implementation, with keyed views"""

    def __init__(self, w, f, ps, trips):
        self.w, self.f, self.ps, self.trips = w, f, ps, trips
        self.eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
        self.hp = Hyperpath(self.eg, ps)
        self.hs, self.ls, self.ss, self.fs, self.vs = self.hp.get_all_hyperpaths(od_matrix(w, trips))
        self.p = list(w.width.values())[0]
        self.asg = Assignment.get_assignment(self.hs, self.ls, self.p, ps.va, ps.pa, ps.pv)
        self.keyed()

    def keyed(self):
        """od pairs: [(o, d, trips, {stop key: share}, {node key: [next keys]})]"""
        self.ods = []
        for o in list(self.hs):
            for d in list(self.hs[o]):
                sh = {key(s): float(self.asg[o][d][s]) for s in list(self.hs[o][d])}
                su = {}
                for n in list(self.ss[o][d]):
                    for e in list(self.ss[o][d][n]):
                        su.setdefault(key(n), []).append(key(e.nodej))
                x, y = key(o)[1], key(d)[1]
                self.ods.append((x, y, float(self.vs[o][d]), sh, su))


class Flow:
    """reference: travellers per hour, split at every boarding by the frequencies of the optimal lines"""

    def __init__(self, w, ods, f):
        self.board, self.alight, self.section = defaultdict(float), defaultdict(float), defaultdict(float)
        self.boardings = 0.0         # total boardings
        self.moves = []              # (o, d, total trips of the pair, from, to, travellers)
        self.split = False
        for o, d, v, shares, suc in ods:
            for s, sh in shares.items():
                if v * sh:
                    self._walk(w, o, d, s, v * sh / 100.0, suc, f)

    def _walk(self, w, o, d, n, x, suc, f):
        if n[0] == "c" and n[1] == d:
            return
        nxt = suc.get(n, [])
        lines = [j for j in nxt if n[0] == "s" and j[0] == "r"]
        tot = sum(f[j[1]] for j in lines)
        if len(lines) > 1:
            self.split = True
        for j in nxt:
            y = x * f[j[1]] / tot if j in lines else x
            if n[0] == "s" and j[0] == "r":
                self.board[j[1], j[2], n] += y
                self.boardings += y
            elif n[0] == "r" and j[0] == "s":
                self.alight[n[1], n[2], j] += y
            elif n[0] == "r" and j[0] == "r":
                self.section[n[1], n[2], n[3]] += y
            self.moves.append((o, d, n, j, y))
            if y:
                self._walk(w, o, d, j, y, suc, f)


def flat(dct, by=None):
    """{line: {direction: {stop: x}}} -> {(line, direction, stop key): x} without zeros"""
    out = {}
    for r in list(dct):
        for d in list(dct[r]):
            for s in list(dct[r][d]):
                if dct[r][d][s] != 0:
                    out[r, d, key(s)] = float(dct[r][d][s])
    return out


def per_vehicle(flows, f):
    return {k: (v / f[k[0]] if f[k[0]] else v) for k, v in flows.items() if v}


def compare_map(ctx, got, want, what, rel=1e-6, abs_=1e-9):
    for k in set(got) | set(want):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if not is_close(a, b, rel, abs_):
            ctx.check(False, "%s: %s" % (what, k), got=a, want=b, all_got=got, all_want=want)


# a menu of networks in which lines interact: (name, [(line, mode index)])
NETWORKS = {
    "radial": [("radial1", 0), ("radial2", 0)],
    "express": [("radial1", 0), ("express1", 0), ("radial2", 0)],
    "feeder+ring": [("feeder1", 0), ("feeder2", 0), ("ring12", 1), ("short1", 1)],
    "feeder+dia": [("feeder1", 0), ("feeder2", 0), ("dia-short", 1)],
    "competing": [("dia", 0), ("dia-short", 1)],
    "two dia": [("dia", 0), ("dia", 1)],
    "skipping": [("dia-skipC", 0), ("short1", 1), ("short2", 1)],
    "ring": [("feeder1", 0), ("feeder2", 0), ("feeder3", 0), ("cir-I", 0), ("cir-R", 0)],
    "metro ring": [("radial1", 0), ("radial2", 0), ("cir-I", 1), ("cir-R", 1)],
    "one ring": [("feeder1", 0), ("feeder2", 0), ("feeder3", 0), ("cir-I", 1)],
    "asymmetric": [("one-way-express", 0), ("loop-back", 0), ("radial2", 0)],
    "return-express": [("return-express", 0), ("dia-short", 1)],
    "outbound-skips": [("outbound-skips", 0), ("radial2", 0)],
    "loops": [("loop", 0), ("feeder1", 0), ("feeder2", 0)],
    "loop-skip": [("loop-skip", 1), ("dia", 0)],
    "common": [("radial1", 0), ("loop-back", 0), ("dia", 0), ("radial2", 0)],
    "tan": [("tan", 0), ("radial1", 1), ("radial2", 1)],
    "reversed": [("reversed", 0), ("radial2", 0), ("dia-short", 1)],
}
LINES["feeder3"] = "P3 S3"
# shapes that need four zones
LINES["twice"] = "C S1 S2 S3||S3 S4 S1 S2 C"            # a street in the same direction on both ways
LINES["twice-express"] = "C S1 S2 S3|C S3|S3 S4 S1 S2 C|S3 S1 C"
LINES["detour"] = "P1 S1 S2 C|P1 S1 C"                  # the stops of radial1 by another way
# shapes of a large city
LINES["long"] = "P1 S1 S2 S3 S4 S5 S6 S7 P7"
LINES["long-express"] = "P1 S1 S2 S3 S4 S5 S6 S7 P7|P1 S4 P7"
LINES["long-cross"] = "P9 S9 S8 S7 C S3 S2 S1 P1|P9 S7 C S2 P1"
LINES["long-back"] = "P1 S1 S2 S3 S4 C||C S9 S1 P1"
LINES["long-return"] = "S8 S9 S1 C S5 S6 P6|S8 P6|P6 S6 S7 S8|P6 S6 S7 S8"
LINES["short5"] = "S5 C"
LINES["feeder6"] = "P6 S6"
LINES["radial9"] = "P9 S9 C"
LINES["bent"] = "P1 S1 S2 S3 C S4|P1 S3 S4"


def line_names(n):
    """the line shapes that fit a city of n zones, circular lines aside"""
    m = set(sum((["P%d" % (i + 1), "S%d" % (i + 1)] for i in range(n)), ["C"]))
    return [k for k, v in LINES.items() if set(v.replace("|", " ").split()) <= m and (n == 4 or not k.startswith("twice"))]

DEMANDS = {
    "one": {("P1", "C"): 1.0},
    "cross": {("P1", "P2"): 60.0, ("P2", "S1"): 35.0},
    "radial": {("P1", "C"): 90.0, ("P2", "C"): 45.0, ("C", "P1"): 30.0},
    "mixed": {("P1", "S2"): 40.0, ("S1", "C"): 25.0, ("C", "S2"): 15.0, ("S2", "P1"): 10.0, ("P2", "P1"): 5.0},
    "ring": {("S1", "S2"): 20.0, ("S2", "S3"): 30.0, ("S3", "S1"): 40.0, ("S3", "S2"): 7.0},
    "local": {("P1", "S1"): 12.0, ("S1", "P1"): 8.0, ("S2", "S1"): 50.0},
    "tiny": {("P1", "C"): 4e-4, ("P2", "P1"): 3e-7, ("S1", "S2"): 0.3},
    "all": None,
}
FAR = {("P1", "P6"): 40.0, ("P6", "C"): 30.0, ("P9", "P1"): 20.0, ("S8", "P6"): 10.0, ("C", "P7"): 5.0, ("S5", "S2"): 8.0}
PSETS = {"default": {}, "patient": dict(pw=0.8, pt=1), "sprinter": dict(va=15.0, pa=1.0, spa=3.0),
         "no penalty": dict(pt=0, spt=5)}


def network(name, shape="ids", n=3, p=2.0, **mods):
    """mods: bus=dict(...), metro=dict(...)"""
    ms = [bus_(**dict(dict(tat=0.3), **mods.get("bus", {}))), metro_(**mods.get("metro", {}))]
    return World(city(n, p=p, shape=shape), [(x, ms[i]) for x, i in NETWORKS[name]])


def trips_of(w, name, f, ps):
    """the trips of a demand that the network can carry"""
    if name == "far":                   # a demand of a large city only
        t = dict(FAR)
    elif DEMANDS[name] is None:
        t = {(a, b): 3.0 + len(a) + 7 * i + 2 * j for i, a in enumerate(w.sym) for j, b in enumerate(w.sym) if a != b}
        if len(t) > 200:                # a large city: every tenth pair
            t = {k: v for i, (k, v) in enumerate(sorted(t.items())) if i % 10 == 3}
    else:
        t = dict(DEMANDS[name])
    graph = ref_graph(w, f, ps.pt)
    ok = {}
    for (a, b), v in t.items():
        if a not in w.sym or b not in w.sym:
            continue
        o, d = w.sym[a], w.sym[b]
        if ("c", o) in graph[0] and ("c", d) in graph[0]:
            rl, _, _ = ref_labels(w, f, ps, o, d, graph)
            if any(rl[s] < INF for s in graph[0] if s[0] == "s" and s[2] == o):
                ok[(a, b)] = v
    return ok


# ------------------------------------------------------------------ a network that changes
# the same objects are asked again after lines came and went, modes were altered, or the city was another one
EVOLVE = ["radial", "competing", "one ring"]


def evolve(ctx, w, i, attrs):
    """one change of a system; the changed world (the same network object unless the city is another one)"""
    ops = [("replace", x) for x in ("detour", "loop-back", "express1", "short2")] + [("add", "dia"), ("drop",), ("city", "asym"),
           ("city", "sym")] + [("set",) + a for a in attrs]
    op = ctx.choose("change %d" % i, ops)
    if op[0] == "replace":              # another line under the id of an earlier one
        ln = [x for x in w.lines if not x.circular][0]
        if ln.shape == op[1]:
            ctx.prune()
        w.drop(ln)
        w.put(ln.id, op[1], ln.mode)
    elif op[0] == "add":
        w.put("new%d" % i, op[1], w.lines[-1].mode)
    elif op[0] == "drop":
        if len(w.lines) == 1:
            ctx.prune()
        w.drop(w.lines[0])
    elif op[0] == "city":               # lines of the same ids and shapes elsewhere
        new = World(city(len(w.g.get_zones()), p=2.0 + i, shape=op[1]), [])
        for ln in w.lines:
            new.put(ln.id, ln.shape, ln.mode)
        w = new
    else:
        md = w.lines[0].mode
        if op[1] == "d":                # one mode keeps a single line in parallel
            if md.d == 1:
                ctx.prune()
        setattr(md, op[1], op[2])
    w.modes = list(w.net.get_modes())
    return w, "%s" % (op,)


def changing(judge, attrs, networks=EVOLVE, values=(6.0, 15.0, 31.0, 11.0, 23.0, 9.0), keep=True):
    """harness: judge(ctx, w, f, what) before and after every two changes; with keep also asks the first world again"""
    def changes(ctx):
        w = network(ctx.choose("network", networks), "ids")
        told = []
        freqs = lambda w: defaultdict(float, {ln.id: values[sum(map(ord, ln.id)) % len(values)] for ln in w.lines})
        judge(ctx, w, freqs(w), "at first")
        for i in range(3 if ctx.thorough else 2):
            first = w
            w, op = evolve(ctx, w, i, attrs)
            told.append(op)
            ctx.step(op)
            ctx.state(("changes", sorted((ln.id, ln.shape, repr(observe(ln.mode))) for ln in w.lines), sorted(w.pos.items()), i))
            judge(ctx, w, freqs(w), "after %s" % told)
            if first is not w:
                judge(ctx, first, freqs(first), "of the first city after %s" % told)
    return changes


# ------------------------------------------------------------------ a large city
LARGE = {
    "long": [("long", 0), ("long-cross", 0), ("long-back", 0), ("radial9", 0), ("feeder6", 0), ("short5", 0), ("long-express", 0)],
    "long metro": [("long-express", 1), ("long", 0), ("long-cross", 1), ("long-return", 1), ("feeder6", 0), ("radial9", 0)],
    "large ring": [("cir-I", 0), ("cir-R", 0), ("feeder6", 0), ("radial9", 0), ("long-return", 0), ("feeder1", 0)],
    "large metro ring": [("long", 0), ("cir-I", 1), ("cir-R", 1), ("long-back", 0), ("short5", 1)],
}


def large(judge, values=(6.0, 15.0, 31.0, 11.0, 23.0, 9.0, 4.0)):
    """harness: judge(ctx, w, f, what) in a city of nine zones with long lines"""
    def big(ctx):
        net = ctx.choose("network", list(LARGE))
        shape = ctx.choose("city", ["ids", "asym"])
        ms = [bus_(tat=0.3), metro_()]
        w = World(city(9, p=2.0, shape=shape), [(x, ms[i]) for x, i in LARGE[net]])
        for turn in range(2):
            f = w.freqs(values[turn:] + values[:turn])
            if turn:
                f[w.lines[1].id] = 0.4
            ctx.step(turn)
            ctx.state((net, shape, turn))
            judge(ctx, w, f, "%s in a large city" % net)
    return big


# ------------------------------------------------------------------ extremes of size
SIZED = {"radial": [("radial1", 0), ("radial2", 0)], "competing": [("dia", 0), ("dia-short", 1), ("loop-back", 0)],
         "feeder+ring": [("feeder1", 0), ("feeder2", 0), ("ring12", 1), ("short1", 1)],
         "one ring": [("feeder1", 0), ("feeder2", 0), ("feeder3", 0), ("cir-I", 1)]}


def sizes(judge):
    """harness: judge(ctx, w, f, what) with very small and very large lengths, widths, speeds and frequencies"""
    def sized(ctx):
        net = ctx.choose("network", list(SIZED))
        l = ctx.choose("radius", [10.0, 0.02, 700.0])
        p = ctx.choose("width", [2.0, 0.001, 60.0])
        v = ctx.choose("speed", [20.0, 0.4, 900.0])
        q = ctx.choose("frequencies", [1.0, 0.004, 120.0])
        shape = ctx.choose("city", ["sym", "asym"])
        ms = [bus_(tat=0.3, v=v), metro_(v=v * 1.5, tat=25.0 if v == 0.4 else 1.0)]
        w = World(city(3, l=l, p=p, shape=shape), [(x, ms[i]) for x, i in SIZED[net]])
        f = w.freqs([x * q for x in (6.0, 15.0, 31.0, 11.0)])
        ctx.step(net)
        ctx.state((net, l, p, v, q, shape))
        judge(ctx, w, f, "%s, radius %s, width %s, speed %s, frequencies x%s" % (net, l, p, v, q))
    return sized


# ------------------------------------------------------------------ many lines
SHAPES4 = ["feeder1", "radial2", "short1", "dia", "feeder3", "express1", "tan", "ring12", "radial1", "dia-short", "feeder2", "loop-back",
           "short2", "one-way-express", "reversed", "outbound-skips"]
IDS = {"numbers": lambda i: i, "numbers from the end": lambda i: 99 - i, "words": lambda i: "L%d" % i, "tuples": lambda i: ("line", i)}


def crowd(name, ids, shape="ids"):
    """a network of two to three dozen lines"""
    if name == "common":                # 14 x 14 ways with a change
        md = bus_(theta=1.0)
        ls, n = [("radial1", md)] * 14 + [("radial2", md)] * 14, 2
    elif name == "one street":
        md = bus_(tat=0.3, theta=0.5)
        ls, n = [("feeder1", md)] * 12 + [("short1", md)] * 12 + [("feeder3", md)], 4
    else:
        ms = [bus_(tat=0.3), metro_()]
        ls = [(SHAPES4[i % 16], ms[name == "two modes" and i % 3 == 1]) for i in range(36)]
        n = 4
    return World(city(n, p=2.0, shape=shape), ls, [IDS[ids](i) for i in range(len(ls))])


def many(judge, crowds=("common numbers", "one street words", "two modes numbers from the end", "one mode numbers", "one mode words")):
    """harness: judge(ctx, w, f, what) with networks of two to three dozen lines"""
    def crowded(ctx):
        net = ctx.choose("network and ids", list(crowds))
        w = crowd(*re.match("(common|one street|two modes|one mode) (.*)", net).groups())
        k = len(w.lines)
        turn = ctx.choose("frequencies", [0, 1])
        f = w.freqs([2.0 + (7 * i + turn) % 11 + 0.25 * i for i in range(k)] if turn == 0 or not net.startswith("common") else [3.0] * k)
        ctx.step(turn)
        ctx.state((net, turn))
        judge(ctx, w, f, "%d lines (%s)" % (k, net))
    return crowded


# ------------------------------------------------------------------ systems that differ in one thing
ASPECTS = ["radius", "length", "width", "eccentricity", "eccentric zone", "angles", "Gi", "Hi", "shapes", "frequencies", "order", "modes swapped"]
ASPECTS += ["mode " + a for a in ("theta", "tat", "v", "t", "bya", "co", "c1", "c2", "kmax", "fmax", "fini", "d")]
MODE_CHANGES = {"theta": 0.15, "tat": 2.5, "v": 13.0, "t": 9.0, "bya": 0, "co": 31.0, "c1": 0.9, "c2": 7.0, "kmax": 61.0, "fmax": 33.0, "fini": 5.0, "d": 2}
ALIKE = ["radial", "competing", "one ring"]


def one_of_two(net, aspect, second):
    """a system and its twin, made anew, that differs in one thing only; every name, id and number is the same otherwise"""
    is_ = lambda a: second and aspect == a
    angles, gi, hi = [20.0, 130.0, 250.0], [1.0, 1.25, 0.8], [1.5, 1.0, 1.25]
    g = Graph.build_from_parameters(3, 14.0 if is_("radius") else 10.0, 0.9 if is_("length") else 0.5, 3.5 if is_("width") else 2.0,
                                    0.6 if is_("eccentricity") else 0.3, 3 if is_("eccentric zone") else 1,
                                    angles[:2] + [300.0] if is_("angles") else angles, gi[::-1] if is_("Gi") else gi, hi[::-1] if is_("Hi") else hi)
    kw = dict(tat=0.3)
    if second and aspect.startswith("mode "):
        kw[aspect[5:]] = MODE_CHANGES[aspect[5:]]
    ms = [bus_(**kw), metro_(**{k: v for k, v in kw.items() if k not in ("tat", "d", "bya")})]
    lines = [(x, ms[i ^ (is_("modes swapped") and len({j for _, j in NETWORKS[net]}) > 1)]) for x, i in NETWORKS[net]]
    ids = ["L%d" % i for i in range(len(lines))]
    if is_("shapes"):                   # the lines carry each other's ids
        ids = ids[1:] + ids[:1]
    if is_("order"):
        lines, ids = lines[::-1], ids[::-1]
    w = World(g, lines, ids)
    f = w.freqs([6.0, 15.0, 31.0, 11.0, 23.0, 9.0])
    if is_("order"):
        f = w.freqs([6.0, 15.0, 31.0, 11.0, 23.0, 9.0][:len(lines)][::-1])
    if is_("frequencies"):
        f = w.freqs([15.0, 6.0, 4.0, 31.0, 9.0, 23.0])
    return w, f


def twins(judge, networks=ALIKE, aspects=ASPECTS):
    """harness: judge(ctx, w, f, what) of two systems that differ in one thing, the first one once more after the second"""
    def alike(ctx):
        net = ctx.choose("network", list(networks))
        aspect = ctx.choose("they differ in", list(aspects))
        when = ctx.choose("made", ["one after the other", "at once"])
        turn = ctx.choose("first", [0, 1])
        a, b = (lambda: one_of_two(net, aspect, bool(turn))), (lambda: one_of_two(net, aspect, not turn))
        two = [a(), b()] if when == "at once" else [a(), None]
        ctx.state((net, aspect, when, turn))
        ctx.step(aspect)
        judge(ctx, *two[0], "%s, the first of two that differ in %s" % (net, aspect))
        two[1] = two[1] or b()
        judge(ctx, *two[1], "%s, the second of two that differ in %s" % (net, aspect))
        judge(ctx, *two[0], "%s, again the first of two that differ in %s" % (net, aspect))
    return alike
