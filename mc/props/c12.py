"""C12 the graph of stops, lines and streets passengers travel on"""
import itertools
from world import *
from bfs import observe

FREQ = {"default": None, "distinct": [7.0, 12.0, 31.5, 3.0], "zero": [0.0, 6.0, 0.0, 9.0], "tiny": [1e-6, 1e4, 5.0, 0.25]}


def compare(ctx, w, f, tp, eg, what):
    want_n, want_e = ref_graph(w, f, tp)
    vn = view_nodes(eg)
    got_n = set()
    for c, stops in vn.items():
        if not stops:
            continue            # a place without stops may or may not be listed
        got_n.add(c)
        for st, rs in stops.items():
            ctx.check(st[2] == c[1], "a stop is filed under another place", stop=st, place=c)
            ctx.check(st not in got_n, "a stop is listed twice", stop=st)
            got_n.add(st)
            for r in rs:
                ctx.check(r[3] == c[1] and w.line[r[1]].mode.name == st[1], "a line is filed under another stop", line=r, stop=st)
                ctx.check(r not in got_n, "a line is listed twice at a stop", line=r)
                got_n.add(r)
    ctx.equal(sorted(map(str, got_n)), sorted(map(str, want_n)), "places, stops and lines of the graph (%s)" % what)
    ge = sorted(view_edges(eg), key=lambda e: (e[4], str(e[:2])))
    we = sorted(want_e, key=lambda e: (e[4], str(e[:2])))
    ctx.equal([(e[4],) + e[:2] for e in ge], [(e[4],) + e[:2] for e in we], "links of the graph (%s)" % what)
    for a, b in zip(ge, we):
        ctx.close(a[2], b[2], "time of the %s link %s -> %s (%s)" % (a[4], a[0], a[1], what))
        if b[3] == INF:
            ctx.check(a[3] == INF, "frequency of the %s link %s -> %s (%s)" % (a[4], a[0], a[1], what), got=a[3])
        else:
            ctx.close(a[3], b[3], "frequency of the boarding link %s -> %s (%s)" % (a[0], a[1], what))
    # links join the very nodes that are listed
    nd = eg.get_extended_graph_nodes()
    known = set()
    for c in list(nd):
        known.add(id(c))
        for s in list(nd[c]):
            known.add(id(s))
            known |= {id(r) for r in nd[c][s]}
    for e in eg.get_extended_graph_edges():
        ctx.check(id(e.nodei) in known and id(e.nodej) in known, "a link joins a node that is not in the graph",
                  link=(key(e.nodei), key(e.nodej)))
    ctx.validated()


def build(w, f, tp):
    return ExtendedGraph(w.g, w.net.get_routes(), tp, f)


def pairs(ctx):
    """one or two lines of any shape"""
    shape = ctx.choose("city", [(3, "sym"), (3, "ids"), (2, "asym"), (2, "ids"), (4, "ecc")])
    names = line_names(shape[0]) + ["cir-I", "cir-R"]
    a = ctx.choose("line 1", names)
    b = ctx.choose("line 2", [None] + names)
    how = ctx.choose("modes", ["same", "two"] if b else ["same"])
    d = ctx.choose("parallel lines of the bus", [4, 1, 3] if ctx.thorough else [4])
    m1, m2 = bus_(d=d), metro_(tat=1.5)
    if a == b and how == "same":
        ctx.prune()
    g = city(shape[0], shape=shape[1])
    w = World(g, [(a, m1)] + ([(b, m1 if how == "same" else m2)] if b else []))
    before = observe([g, w.net])
    graphs = []
    for fk in FREQ:
        tp = {"default": 16, "distinct": 0, "zero": 7.5, "tiny": 16}[fk]
        f = None if FREQ[fk] is None else w.freqs(FREQ[fk])
        eg = build(w, f, tp)
        ctx.step((shape, a, b, how, fk))
        ctx.state((shape, a, b, how, d, fk))
        compare(ctx, w, f, tp, eg, "%s+%s %s" % (a, b, fk))
        graphs.append((f, tp, eg))
    for f, tp, eg in graphs:
        compare(ctx, w, f, tp, eg, "looked at again")
    ctx.check(observe([g, w.net]) == before, "building the graph changed the city or the network")
    ctx.outcome = how


def triples(ctx):
    """three lines, order of insertion included"""
    sub = ["express1", "dia-skipC", "loop", "one-way-express", "tan-express", "short2", "cir-I", "return-express"]
    a = ctx.choose("line 1", sub)
    b = ctx.choose("line 2", [x for x in sub if x != a])
    c = ctx.choose("line 3", [x for x in sub if x not in (a, b)])
    k = ctx.choose("modes", [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)])
    ms = [bus_(), metro_()]
    g = city(3, shape=ctx.choose("city", ["ids", "ecc"]))
    w = World(g, list(zip((a, b, c), (ms[i] for i in k))))
    f = w.freqs([5.0, 0.0, 17.0])
    eg = build(w, f, 12)
    ctx.step((a, b, c, k))
    ctx.state((a, b, c, k))
    compare(ctx, w, f, 12, eg, "three lines")


class PW(World):
    """a world made of predefined families"""

    def __init__(self, g, fams):
        World.__init__(self, g, [])
        for fam, md, jump, short, express in fams:
            if fam == "feeder":
                rs = self.net.get_feeder_routes(md)
            elif fam == "radial":
                rs = self.net.get_radial_routes(md, short, express)
            elif fam == "diametral":
                rs = self.net.get_diametral_routes(md, jump, short, express)
            elif fam == "tangential":
                rs = self.net.get_tangencial_routes(md, jump, short, express)
            else:
                rs = self.net.get_circular_routes(md)
            for r in rs:
                self.net.add_route(r)
                self.lines.append(Line(r.id, md, list(r.nodes_sequence_i), list(r.stops_sequence_i),
                                       list(r.nodes_sequence_r), list(r.stops_sequence_r), fam == "circular"))
            if md not in self.modes:
                self.modes.append(md)
        self.line = {ln.id: ln for ln in self.lines}


def families(ctx):
    n = ctx.choose("n", [2, 3, 4, 5, 7, 10] if ctx.thorough else [2, 4, 5])
    fams = [("feeder", None, None, None)]
    fams += [("radial", None, s, e) for s in (False, True) for e in (False, True)]
    for fm in ("diametral", "tangential"):
        fams += [(fm, j, s, e) for j in range(1, n // 2 + 1) for s in (False, True) for e in (False, True)]
    fams += [("circular", None, None, None)]
    ms = [bus_(), metro_()]
    a = ctx.choose("family 1", fams)
    b = ctx.choose("family 2", [None] + fams)
    how = ctx.choose("modes", [0, 1]) if b else 0
    if b and how == 0 and a[0] == b[0]:
        ctx.prune()         # same ids
    g = city(n, shape="asym")
    w = PW(g, [(a[0], ms[0]) + a[1:]] + ([(b[0], ms[how]) + b[1:]] if b else []))
    f = defaultdict(float)
    for i, ln in enumerate(w.lines):
        f[ln.id] = 3.0 + i
    eg = build(w, f, 16)
    ctx.step((n, a, b, how))
    ctx.state((n, a, b, how))
    compare(ctx, w, f, 16, eg, "families")


NAMES = ["CIRCUITO", "CIR_I_bus", "CIR_R_metro", "F_bus_1", "EXP_I", "I", "R", "0", "1", "-1", "None", "bus", "a,b", "inf", "línea 9",
         "a_very_long_name_of_a_line_that_goes_on_and_on_and_on_1", "a_very_long_name_of_a_line_that_goes_on_and_on_and_on_2"]


def naming(ctx):
    """the id of a line is no more than a name"""
    a, b = ctx.choose("id 1", NAMES), ctx.choose("id 2", NAMES)
    if a == b:
        ctx.prune()
    how = ctx.choose("lines", [("radial1", "loop-back", 0), ("dia", "dia-short", 1), ("cir-I", "express1", 0)])
    if how[0] == "cir-I" and b == "CIR_I_bus":
        ctx.prune()
    ms = [bus_(), metro_()]
    w = World(city(3), [(how[0], ms[0]), (how[1], ms[how[2]])], [a, b])
    f = w.freqs([5.0, 17.0])
    eg = build(w, f, 12)
    ctx.step((a, b, how))
    ctx.state((a, b, how))
    compare(ctx, w, f, 12, eg, "lines %s and %s" % (a, b))


changes = changing(lambda ctx, w, f, what: compare(ctx, w, f, 16, build(w, f, 16), what), [("v", 11.0), ("tat", 3.0), ("d", 2)])

HARNESSES = [("pairs", pairs), ("triples", triples), ("families", families), ("naming", naming), ("changes", changes), ("large city", large(lambda ctx, w, f, what: compare(ctx, w, f, 16, build(w, f, 16), what))), ("sizes", sizes(lambda ctx, w, f, what: compare(ctx, w, f, 16, build(w, f, 16), what))), ("dozens of lines", many(lambda ctx, w, f, what: compare(ctx, w, f, 16, build(w, f, 16), what))), ("twins", twins(lambda ctx, w, f, what: compare(ctx, w, f, 16, build(w, f, 16), what)))]
BOUNDS = {"quick": "every line and every ordered pair out of 26-29 line shapes (express, asymmetric, circular) on 5 cities, one or two "
                   "modes, 4 frequency patterns; every ordered triple of 8 shapes; all pairs of predefined families for n in "
                   "{2,4,5}; 17x16 pairs of line names; all 2-step histories of changes (11-16 changes) of 3 networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "d in {1,3,4}; n up to 10; 3 changes"}
ASSUMPTIONS = ["lines never visit a place twice in one direction (circular lines aside) and stops are listed in the order of travel"]
