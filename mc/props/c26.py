"""C26 pictures of cities, networks and strategies show exactly what was asked for"""
import itertools
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_hex
from matplotlib.figure import Figure
from matplotlib.patches import FancyArrowPatch
from world import *
from bfs import observe
from sidermit.exceptions import RouteIdNotFoundException

TAKEN = []           # pictures handed out: (file or None, content)
_save = Figure.savefig


def r(x):
    return round(float(x), 6)


def content(fig):
    """what a figure shows: points and arrows by colour, labels"""
    pts, arr, txt = {}, {}, []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                cs = c.get_edgecolors()
                for i, seg in enumerate(c.get_segments()):
                    arr.setdefault(to_hex(cs[i % len(cs)]), []).append((r(seg[0][0]), r(seg[0][1]), r(seg[-1][0]), r(seg[-1][1])))
            elif isinstance(c, PathCollection):
                cs = c.get_facecolors()
                for i, (x, y) in enumerate(c.get_offsets()):
                    pts.setdefault(to_hex(cs[i % len(cs)]), []).append((r(x), r(y)))
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                (a, b), (c, d) = p._posA_posB
                arr.setdefault(to_hex(p.get_edgecolor()), []).append((r(a), r(b), r(c), r(d)))
        for t in ax.texts:
            txt.append((t.get_text(), r(t.get_position()[0]), r(t.get_position()[1])))
    return {"points": pts, "arrows": arr, "labels": sorted(txt)}


def _record(fig, path, *a, **k):
    TAKEN.append((path, content(fig)))
    if REAL[0]:
        _save(fig, path, *a, **k)


def _shown(*a, **k):
    TAKEN.append((None, content(plt.gcf())))


REAL = [False]
Figure.savefig = _record
plt.show = _shown
# the limits of the axes are not looked at (and cost most of the time)
_limits = getattr(matplotlib.axes.Axes, "_update_patch_limits", None)
if _limits is not None:
    matplotlib.axes.Axes._update_patch_limits = lambda self, p: _limits(self, p) if REAL[0] else None


def taken(ctx, fn, path, what):
    """the picture one call makes"""
    del TAKEN[:]
    fn()
    ctx.step(what)
    ctx.equal([p for p, _ in TAKEN], [path], "pictures made (%s)" % (what,))
    return TAKEN[0][1]


def at(pos, i):
    return (r(pos[i][0]), r(pos[i][1]))


def judge(ctx, g, got, lines, what):
    """lines: None for a picture of the city, else {direction: (streets used, stops)}"""
    pos = {int(o.id): (o.x, o.y) for o in g.get_nodes()}
    by_kind = {}
    for o in g.get_nodes():
        by_kind.setdefault(kind(o), set()).add(at(pos, int(o.id)))
    ctx.equal(got["labels"], sorted((str(i),) + at(pos, i) for i in pos), "labels of the places (%s)" % (what,))
    pts = {c: set(v) for c, v in got["points"].items() if v}
    stops = set() if lines is None else {at(pos, s) for d in lines for s in lines[d][1]}
    for k, v in by_kind.items():
        hit = [c for c in pts if pts[c] == v and len(got["points"][c]) == len(v)]
        rest = [c for c in hit if c not in [x for x in pts if pts[x] == stops]] or hit
        ctx.check(hit, "%s places shown (%s)" % (k, what), points=got["points"], want=v)
        del pts[rest[0]]
    ctx.equal(list(pts.values()), [stops] if stops else [], "stops shown (%s)" % (what,))
    arr = {c: set(v) for c, v in got["arrows"].items() if v}
    streets = {at(pos, int(e.node1.id)) + at(pos, int(e.node2.id)) for e in g.get_edges()}
    want = ([streets] if streets else []) + ([] if lines is None else [{at(pos, a) + at(pos, b) for a, b in lines[d][0]} for d in lines if lines[d][0]])
    srt = lambda q: sorted([sorted(x) for x in q])
    ctx.equal(srt(arr.values()), srt(want), "streets and lines shown, by colour (%s)" % (what,))
    ctx.validated()


def where(i=0):
    return scratch("picture%d.png" % i)


def cities(ctx):
    n = ctx.choose("zones", [0, 1, 2, 3, 4, 5, 8, 11, 13, 16, 23])
    shape = ctx.choose("city", ["sym", "ecc", "asym", "ids"])
    if n > 11 and shape not in ("sym", "ecc"):
        ctx.prune()
    if n == 0 and shape == "ids":
        g = Graph.build_from_content(pajek([(7, "Centro", 0.5, 1.5, "CBD", 0, 2)]))
    else:
        g = city(n, shape=shape)
    before = observe(g)
    net = TransportNetwork(g)
    ctx.state((n, shape))
    REAL[0] = n == 2
    try:
        for fn, lines in ((lambda: g.plot(where()), None), (lambda: net.plot(where()), {}), (lambda: g.plot(where()), None)):
            judge(ctx, g, taken(ctx, fn, where(), "%d %s" % (n, shape)), lines, "%d zones %s" % (n, shape))
            if REAL[0]:
                with open(where(), "rb") as fh:
                    ctx.check(fh.read(8) == b"\x89PNG\r\n\x1a\n", "no picture in the file")
                os.unlink(where())
    finally:
        REAL[0] = False
    ctx.check(observe(g) == before, "drawing changed the city")


def wanted(lns, direction):
    out = {}
    for d in ("IR" if direction is None else direction):
        st = [(a, b) for ln in lns for a, b in zip(ln.nodes[d], ln.nodes[d][1:])]
        out[d] = (st, [s for ln in lns for s in ln.stops[d]])
    return out


def networks(ctx):
    """every selection of lines of every network, every direction"""
    net = ctx.choose("network", list(NETWORKS))
    shape = ctx.choose("city", ["ids", "asym"] if ctx.thorough else ["ids"])
    w = network(net, shape)
    if ctx.flag("all lines"):
        sel, lns = None, w.lines
    else:
        lns = ctx.subset("line", w.lines)
        if ctx.choose("order", ["as added", "reversed", "twice"]) != "as added":
            if not lns:
                ctx.prune()
            lns = lns[::-1] if ctx.points[-1][2] == 1 else lns + lns[:1]
        sel = [ln.id for ln in lns]
    d = ctx.choose("direction", [None, "I", "R"] if ctx.thorough or lns in (w.lines, [x for x in w.lines if x in lns]) else [None])
    before = observe([w.g, w.net])
    what = "%s %s %s" % (net, sel, d)
    ctx.state((net, shape, sel and tuple(sel), d))
    given = sel and list(sel)
    fn = (lambda: w.net.plot(where())) if sel is None and d is None else (lambda: w.net.plot(where(), given, d))
    judge(ctx, w.g, taken(ctx, fn, where(), what), wanted(lns, d), what)
    ctx.equal(given, sel, "drawing changed the selection")
    ctx.check(observe([w.g, w.net]) == before, "drawing changed the city or the network (%s)" % (what,))
    # unknown lines
    for bad in ((sel or []) + ["nobody"], ["nobody"] + (sel or [])):
        del TAKEN[:]
        ctx.rejects(lambda: w.net.plot(where(), bad, d), "a line that does not exist was drawn (%s)" % what, RouteIdNotFoundException)
        ctx.equal(TAKEN, [], "a picture was made for a line that does not exist (%s)" % (what,))
    ctx.outcome = str(d)


def dozens(ctx):
    """networks of many lines that lie apart: all, the last ones, every second one"""
    n = ctx.choose("zones", [9, 14] if ctx.thorough else [9])
    md = bus_()
    g = city(n)
    names = []
    for z in range(1, n + 1):
        LINES["feeder%d" % z] = "P%d S%d" % (z, z)
        LINES["skip%d" % z] = "P%d S%d C|P%d C" % (z, z, z)
        names += ["feeder%d" % z, "skip%d" % z]
    if ctx.flag("backwards"):
        names = names[::-1]
    kind = ctx.choose("ids", ["words", "numbers"]) if ctx.thorough else "words" if names[0] == "feeder1" else "numbers"
    w = World(g, [(x, md) for x in names], [IDS[kind](i) for i in range(2 * n)])
    lns = {"all": w.lines, "last": w.lines[-9:], "every second": w.lines[::2], "backwards": w.lines[::-1], "one": w.lines[-1:], "first": w.lines[:7]}[ctx.choose(
        "lines", ["all", "last", "every second", "backwards", "one", "first"])]
    d = ctx.choose("direction", [None, "I", "R"] if ctx.thorough else [None, "R"])
    sel = [ln.id for ln in lns]
    fn = (lambda: w.net.plot(where(), direction=d)) if lns is w.lines else (lambda: w.net.plot(where(), sel, d))
    ctx.state((n, sel, d))
    judge(ctx, g, taken(ctx, fn, where(), "dozens"), wanted(lns, d), "%d lines of %d, %s" % (len(lns), 2 * n, d))


def histories(ctx):
    """every sequence of pictures: each shows what it shows alone"""
    wa, wb = network("feeder+dia", "ids"), network("asymmetric", "asym")
    menu = {
        "city A": (wa.g, lambda p: wa.g.plot(p), None),
        "city B": (wb.g, lambda p: wb.g.plot(p), None),
        "all A": (wa.g, lambda p: wa.net.plot(p), wanted(wa.lines, None)),
        "one A": (wa.g, lambda p: wa.net.plot(p, [wa.lines[2].id], "I"), wanted(wa.lines[2:3], "I")),
        "none A": (wa.g, lambda p: wa.net.plot(p, []), {}),
        "all B": (wb.g, lambda p: wb.net.plot(p, direction="R"), wanted(wb.lines, "R")),
        "bad": (wa.g, lambda p: wa.net.plot(p, ["nobody"]), None),
        "grown B": (wb.g, None, None),
    }
    n = ctx.choose("pictures", [2, 3] if not ctx.thorough else [2, 3, 4])
    added = False
    done = []
    for i in range(n):
        k = ctx.choose("picture %d" % i, [x for x in menu if not (x == "grown B" and added)])
        done.append(k)
        if k == "grown B":
            # the network gets another line before its next pictures
            ln = World(wb.g, [("dia", wb.lines[0].mode)]).lines[0]
            ni, si, nr, sr = line_spec(wb.g, "dia")
            wb.net.add_route(Route(ln.id, ln.mode, _j(ni), _j(nr), _j(si), _j(sr)))
            wb.lines.append(ln)
            menu["all B"] = (wb.g, lambda p: wb.net.plot(p, direction="R"), wanted(wb.lines, "R"))
            added = True
            continue
        g, fn, lines = menu[k]
        p = where(i)
        if k == "bad":
            del TAKEN[:]
            ctx.rejects(lambda: fn(p), "a line that does not exist was drawn", RouteIdNotFoundException)
            ctx.equal(TAKEN, [], "a picture was made for a line that does not exist")
            continue
        judge(ctx, g, taken(ctx, lambda: fn(p), p, k), lines, "after %s" % done)
    ctx.state(tuple(done))


def _j(q):
    return ",".join(map(str, q))


def strategies(ctx):
    """pictures of the paths of every pair, one after the other"""
    net = ctx.choose("network", list(NETWORKS))
    fh = ctx.choose("frequencies", [[28.0] * 5, [4.0, 25.0, 11.0, 60.0, 7.5]])
    w = network(net)
    f = w.freqs(fh)
    ps = passenger()
    names = {int(o.id): o.name for o in w.g.get_nodes()}
    show = {"c": lambda q: names[q[1]], "s": lambda q: "%s - %s" % (q[1], names[q[2]]), "r": lambda q: "%s %s - %s" % (q[1], q[2], names[q[3]])}
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    cn = city_nodes(eg)
    pairs = [x for x in itertools.permutations(sorted(w.sym), 2)]
    if not ctx.thorough:
        pairs = [("P1", "C"), ("P1", "P2"), ("S2", "S1"), ("S3", "S2"), ("C", "P2"), ("P2", "S1")]
    for a, b in pairs:
        o, d = w.sym[a], w.sym[b]
        if not {o, d} <= {n[1] for n in ref_graph(w, f, ps.pt)[0] if n[0] == "c"}:
            continue
        paths, lab, suc, fre = hp.get_hyperpath_OD(cn[o], cn[d])
        keyed = [[key(n) for n in p] for s in list(paths) for p in paths[s]]
        if not keyed:
            continue
        what = "%s %s %s-%s" % (net, fh[:2], a, b)
        got = taken(ctx, lambda: hp.plot(paths), None, what)
        ctx.state(what)
        ctx.equal([[key(n) for n in p] for s in list(paths) for p in paths[s]], keyed, "drawing changed the paths (%s)" % (what,))
        nodes = {n for p in keyed for n in p}
        ctx.equal(sorted(t[0] for t in got["labels"]), sorted(show[n[0]](n) for n in nodes), "places, stops and lines shown (%s)" % (what,))
        pos = {t[0]: t[1:] for t in got["labels"]}
        pt = {c: {x for x in v} for c, v in got["points"].items() if v}
        groups = [sorted(pos[show[k](n)] for n in nodes if n[0] == k) for k in "csr"]
        ctx.equal(sorted(sorted(v) for v in pt.values()), sorted(groups), "markers by kind (%s)" % (what,))
        arrows = {x for v in got["arrows"].values() for x in v}
        ctx.equal(sorted(arrows), sorted({pos[show[i[0]](i)] + pos[show[j[0]](j)] for p in keyed for i, j in zip(p, p[1:])}),
                  "links shown (%s)" % (what,))
        ctx.validated()


HARNESSES = [("cities", cities), ("networks", networks), ("dozens of lines", dozens), ("histories", histories), ("strategies", strategies)]
BOUNDS = {"quick": "11 sizes (up to 23 zones) x 4 shapes of cities; every selection of lines of 18 networks x order x 3 directions; selections out of networks of 18 lines; every sequence of 2-3 pictures out of 8; "
                   "paths of 6 pairs of 18 networks x 2 frequency patterns",
          "thorough": "two cities, sequences of 4 pictures, every pair"}
ASSUMPTIONS = ["colours are not prescribed, only what is told apart by them; what is judged is the content of the figure when it is saved or shown"]
