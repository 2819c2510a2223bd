"""C15 how the travellers of a place split over its stops"""
from world import *
from bfs import observe


def positions(p, d):
    return [(k + 0.5) * p / d - p / 2.0 for k in range(d)]


def share1(p, d2, adv):
    """share of a uniform strip of width p that prefers the central stop over the d2 others, adv = advantage in km walked"""
    cuts = {-p / 2.0, p / 2.0}
    pos = positions(p, d2)
    for a in pos:
        # |x| = |x - a| + adv is piecewise linear: breakpoints 0, a and the crossing points
        cuts |= {0.0, a, (a + adv) / 2.0, (a - adv) / 2.0}
    xs = sorted(c for c in cuts if -p / 2.0 <= c <= p / 2.0)
    tot = 0.0
    for u, v in zip(xs, xs[1:]):
        m = (u + v) / 2.0
        if abs(m) < min(abs(m - a) for a in pos) + adv:
            tot += v - u
    return tot / p * 100.0


def fab(width, d1, d2, swap):
    """a place with one or two stops, built by hand"""
    node = CBD(0, 0.0, 0.0, 0.0, 0.0, width) if False else city(1, p=width).get_nodes()[0]
    o = CityNode(0, node)
    t = CityNode(1, city(1, p=width).get_nodes()[1])
    st = []
    for i, d in enumerate((d1, d2)):
        if d is not None:
            st.append(StopNode(i, bus_(name="m%d" % i, d=d), o))
    return o, t, st[::-1] if swap else st


def call(o, t, st, labels, p, va, pa, pv):
    h = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    lab = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for s, l in zip(st, labels):
        h[o][t][s].append([o, s, t])
        lab[o][t][s] = l
    a = Assignment.get_assignment(h, lab, p, va, pa, pv)
    return [float(a[o][t][s]) for s in st]


def geometry(ctx):
    d2 = ctx.choose("d of the other mode", list(range(1, 22)) if ctx.thorough else [1, 2, 3, 4, 5, 6, 7, 8, 11, 16])
    p = ctx.choose("width", [2.0, 0.6, 5.0])
    va = ctx.choose("walking speed", [4.0, 1.5])
    r = ctx.choose("pa/pv", [(8.22, 2.74), (1.0, 1.0), (0.5, 2.0)])
    swap = ctx.flag("listed first")
    o, t, st = fab(p, 1, d2, swap)
    one = st[1] if swap else st[0]
    pos = sorted({round(abs(x), 12) for x in positions(p, d2)})
    # advantages: at, just before, between and just after every stop, and beyond the strip
    adv = set()
    for x in pos + [0.0, p / 2.0]:
        adv |= {x, x + p / 100.0, x - p / 100.0, x + 1e-7 * p, -x}
    adv |= {(a + b) / 2.0 for a, b in zip(pos, pos[1:])} | {p, 3 * p, p / 7.0}
    adv |= {-a for a in adv}
    base = ctx.choose("cost of the central stop", [0.5, 1.25])
    for a in sorted(adv):
        # |x|*w/va + L1 vs |x-pos|*w/va + L2: advantage in km
        l1, l2 = base, base + a * (r[0] / r[1]) / va
        if l2 < 0:
            continue
        labels = [l2, l1] if swap else [l1, l2]
        got = call(o, t, st, labels, p, va, *r)
        s1 = got[1] if swap else got[0]
        s2 = got[0] if swap else got[1]
        ctx.step((d2, p, va, r, a))
        ctx.state((d2, p, va, r, swap, round(a, 9), base))
        ctx.check(s1 >= -1e-9 and s2 >= -1e-9, "a negative share", shares=got)
        ctx.close(s1 + s2, 100.0, "the shares of the stops do not add up to 100 (d=%d advantage=%g)" % (d2, a))
        eff = (l2 - l1) * va / (r[0] / r[1])
        e = 1e-6 * max(p, abs(eff))
        if d2 == 1 and abs(eff) <= e:
            continue                    # two central stops of the same cost: any split
        lo = min(share1(p, d2, eff - e), share1(p, d2, eff + e))
        hi = max(share1(p, d2, eff - e), share1(p, d2, eff + e))
        ctx.check(lo - 1e-2 <= s1 <= hi + 1e-2, "share of the central stop, other mode with %d lines, advantage %g of width %g" % (
            d2, eff, p), got=s1, between=(lo, hi))
    # a stop from which the destination is out of reach
    for l1, l2 in ((base, INF), (INF, base)):
        got = call(o, t, st, [l2, l1] if swap else [l1, l2], p, va, *r)
        ctx.step((d2, l1, l2))
        ctx.close(sum(got), 100.0, "shares when a stop does not reach the destination (d=%d)" % d2)
        ctx.equal(got[(l1 < l2) == swap], 100.0, "everybody goes to the stop that reaches the destination (d=%d)" % d2)
    ctx.validated()
    ctx.outcome = "d=%d" % d2


def alone(ctx):
    """a single stop gets everybody; no width; reversed roles"""
    d = ctx.choose("d", [1, 2, 3, 4, 9])
    lab = ctx.choose("cost", [0.0, 0.7, 25.0])
    p = ctx.choose("width", [2.0, 0.0, 0.01])
    o, t, st = fab(max(p, 0), d, None, False)
    got = call(o, t, st, [lab], p, 4.0, 8.0, 2.0)
    ctx.step((d, lab, p))
    ctx.state(("alone", d, lab, p))
    ctx.equal(got, [100.0], "share of the only stop")
    o, t, st = fab(max(p, 0), 1, d, False)
    for a in (-0.3, 0.0, 0.3):
        if p == 0.0:
            got = call(o, t, st, [lab + 0.3, lab + 0.3 + a], p, 4.0, 8.0, 2.0)
            ctx.step((d, a))
            ctx.close(sum(got), 100.0, "nobody is left out when the place has no width (difference of cost %g, %d lines)" % (a, d))
            ctx.check(min(got) >= 0, "a negative share", shares=got)
            if a:
                ctx.equal(got, [100.0, 0.0] if a > 0 else [0.0, 100.0], "everybody walks to the cheaper stop when there is no distance")
    ctx.validated()


def judge(ctx, w, f, ps, what):
    """the shares of every pair of a network; how many pairs use two stops"""
    trips = {(x, y): 10.0 for i, x in enumerate(w.sym) for j, y in enumerate(w.sym) if x != y and (len(w.sym) < 12 or (i + 2 * j) % 9 == 0)}
    graph = ref_graph(w, f, ps.pt)
    lab = {}
    ok = {}
    for (x, y) in trips:
        o, dd = w.sym[x], w.sym[y]
        if ("c", o) in graph[0] and ("c", dd) in graph[0]:
            rl, _, _ = ref_labels(w, f, ps, o, dd, graph)
            st = [s for s in graph[0] if s[0] == "s" and s[2] == o and rl[s] < INF]
            if st:
                ok[(x, y)] = 10.0
                for s in st:
                    m = [z for z in w.modes if z.name == s[1]][0]
                    lab[(o, dd, s)] = (rl[s] + m.tat / 60.0 * ps.pa / ps.pv, m.d)
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    hp = Hyperpath(eg, ps)
    hs, ls, ss, fs, vs = hp.get_all_hyperpaths(od_matrix(w, ok))
    before = observe([w.g, w.net, ps])
    p = list(w.width.values())[0]
    asg = Assignment.get_assignment(hs, ls, p, ps.va, ps.pa, ps.pv)
    ctx.step(what)
    split = 0
    for o in list(hs):
        for t in list(hs[o]):
            x, y = key(o)[1], key(t)[1]
            got = {key(s): asg[o][t][s] for s in list(asg[o][t]) if asg[o][t][s]}
            st = {k[2]: v for k, v in lab.items() if k[0] == x and k[1] == y}
            ctx.state((what, x, y))
            ctx.check(set(got) <= set(st), "travellers are sent to a stop that does not reach the destination", got=got, stops=st)
            ctx.close(sum(got.values()), 100.0, "shares of the stops of %s towards %s" % (x, y))
            if len(st) == 2:
                (sm, (lm, dm)), (sb, (lb, db)) = sorted(st.items(), key=lambda kv: kv[1][1])
                if dm == db:
                    (sm, (lm, dm)), (sb, (lb, db)) = sorted(st.items(), key=lambda kv: kv[1][0])
                adv = (lb - lm) * ps.va / (ps.pa / ps.pv)
                e = 1e-6 * max(1, abs(adv))
                if db == 1 and abs(adv) <= e:
                    continue
                q = [share1(p, db, adv - e), share1(p, db, adv + e)]
                ctx.check(min(q) - 1e-2 <= got.get(sm, 0.0) <= max(q) + 1e-2, "share of stop %s from %s to %s" % (sm, x, y),
                          got=got, want=q)
                split += 1 if 1 < got.get(sm, 0) < 99 else 0
    ctx.check(observe([w.g, w.net, ps]) == before, "the split changed its inputs")
    ctx.validated()
    return split


def networks(ctx):
    """the shares of every pair of a real network with two modes"""
    a = ctx.choose("bus line", ["radial1", "dia", "express1", "loop-back", "feeder1", "tan"])
    b = ctx.choose("metro line", ["dia-short", "dia", "short1", "radial1", "tan", "cir-I"])
    d = ctx.choose("d", [4, 2, 3, 5, 1])
    fb = ctx.choose("f", [[28.0, 28.0], [200.0, 3.0], [2.0, 40.0]])
    pk = ctx.choose("passenger", [{}, dict(pa=0.9, va=12.0)])
    ps = passenger(**pk)
    w = World(city(3, p=3.0, shape="asym"), [(a, bus_(d=d)), (b, metro_(tat=0.2))])
    ctx.outcome = "split" if judge(ctx, w, w.freqs(fb), ps, str((a, b, d, fb, pk))) else "one stop takes all"


ATTRS = [("tat", 2.5), ("d", 1), ("theta", 0.2), ("v", 33.0)]


def same(ctx, w, f, what):
    judge(ctx, w, f, passenger(), what)


HARNESSES = [("geometry", geometry), ("alone", alone), ("networks", networks), ("changes", changing(same, ATTRS, ["competing", "metro ring", "tan"])), ("large city", large(same)), ("sizes", sizes(same)), ("dozens of lines", many(same)), ("twins", twins(same))]
BOUNDS = {"quick": "d in 1..8, 11, 16 x 3 widths x 2 speeds x 3 valuations x every cost difference that puts the indifference point at, "
                   "just before, between and after every stop; every pair of 6x6 two-mode networks; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn; all 2-step histories of changes of 3 networks", "thorough": "d up to 21"}
ASSUMPTIONS = ["travellers live uniformly over the width of their place; the d parallel lines of a mode are evenly spread over it, each at "
               "the middle of its strip (the rule stated for even d; for odd d one line runs through the centre)",
               "where two stops are equally good any split is accepted, but nobody may be left out"]
