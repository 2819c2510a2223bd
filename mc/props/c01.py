"""C01 city geometry and topology from construction parameters"""
from common import *
from bfs import observe


def zone_lists(ctx, n, label, menu, small):
    kind_ = ctx.choose(label, ["list"] + list(menu)) if n and n <= ctx.small_n else ctx.choose(label, list(menu))
    if kind_ == "list":
        return [ctx.choose("%s[%d]" % (label, i + 1), small) for i in range(n)]
    return menu[kind_](n)


def compare(ctx, g, args):
    want = ref_city(*args)
    nodes = g.get_nodes()
    ctx.equal(len(nodes), len(want), "number of places")
    by = {int(o.id): o for o in nodes}
    ctx.equal(sorted(by), [w[0] for w in want], "ids of the places")
    ctx.check(kind(nodes[0]) == "CBD" and [int(o.id) for o in nodes] == [w[0] for w in want],
              "order of the places", ids=[o.id for o in nodes])
    for (i, name, typ, zone, x, y, r, a, p) in want:
        o = by[i]
        ctx.equal((o.name, kind(o), o.zone_id), (name, typ, zone), "identity of place %d" % i)
        ctx.close(o.x, x, "x of %s" % name)
        ctx.close(o.y, y, "y of %s" % name)
        ctx.close(o.radius, r, "radius of %s" % name)
        ctx.close(o.width, p, "width of %s" % name)
        if r > 0:
            ctx.check(is_close((o.angle - a + 180) % 360, 180, abs_=1e-6), "angle of %s" % name, got=o.angle, want=a)
    n = args[0]
    zs = g.get_zones()
    ctx.equal([(z.id, z.periphery.id, z.subcenter.id) for z in zs], [(z, 2 * z - 1, 2 * z) for z in range(1, n + 1)],
              "zones")
    for z in zs:
        for o in (z.periphery, z.subcenter):
            ctx.check(is_close(o.x, by[o.id].x) and is_close(o.y, by[o.id].y), "a zone and the city disagree on a place",
                      node=o.id)
    c = g.get_cbd()
    ctx.check(c.id == 0 and is_close(c.x, want[0][4]) and is_close(c.y, want[0][5]), "centre of the city")
    check_topology(ctx, g, {w[0]: (w[4], w[5]) for w in want}, [(z, 2 * z - 1, 2 * z) for z in range(1, n + 1)], 0)
    ctx.equal(tuple(g.get_parameters()), tuple(args), "parameters reported by the city")
    ctx.equal(g.get_n(), n, "number of zones")
    ctx.validated()


def body(ctx):
    ctx.small_n = 3 if ctx.thorough else 2
    n = ctx.choose("n", list(range(0, 13)) + [19, 33] if ctx.thorough else [0, 1, 2, 3, 4, 5, 7, 8, 11, 19])
    l = ctx.choose("l", [10.0, 0.25, 0])
    g = ctx.choose("g", [0.5, 0, 3])
    p = ctx.choose("p", [2.0, 0])
    angles = zone_lists(ctx, n, "angles", ANGLES, [0, 90.0, 215.5, 360])
    gi = zone_lists(ctx, n, "Gi", GI, [0, 0.5, 1.75])
    hi = zone_lists(ctx, n, "Hi", HI, [0, 2.0])
    ez = ctx.choose("etha_zone", [None] + sorted({1, 2, n - 1, n} & set(range(1, n + 1))))
    etha = ctx.choose("etha", [0.25, 0, 1]) if ez else None
    args = (n, l, g, p, etha, ez, angles, gi, hi)
    ctx.step(args)
    gr = Graph.build_from_parameters(*args)
    ctx.state(args)
    compare(ctx, gr, args)
    ctx.outcome = "n=%d edges=%d" % (n, len(gr.get_edges()))


def body_pair(ctx):
    """two cities built one after the other: neither disturbs the other"""
    def draw(tag):
        n = ctx.choose(tag + ".n", [0, 1, 2, 3, 5])
        var = ctx.choose(tag + ".shape", ["plain", "asym"])
        if var == "plain" or n == 0:
            return (n, 10.0, 0.5, 2.0, None, None, None, None, None)
        return (n, 4.0, 1.5, 1.0, 0.5, n, ANGLES["uneven"](n), GI["ramp"](n), HI["drop"](n))
    a = draw("first")
    ga = Graph.build_from_parameters(*a)
    before = observe(ga)
    b = draw("second")
    gb = Graph.build_from_parameters(*b)
    ctx.step((a, b))
    ctx.state((a, b))
    compare(ctx, gb, b)
    compare(ctx, ga, a)
    ctx.check(observe(ga) == before, "building or reading a second city changed the first one")
    # reading never changes a city
    ga.get_edges_distance(), ga.export_graph(), ga.edge_exist(0, 2), ga.get_cbd()
    ctx.check(observe(ga) == before, "reading a city changed it")
    ctx.outcome = "%d/%d" % (a[0], b[0])


FIELDS = ["n", "l", "g", "p", "etha", "etha_zone", "angles", "Gi", "Hi"]


def alike(ctx):
    """cities that differ in one parameter, built one after the other; the lists that were passed belong to the caller"""
    n = ctx.choose("n", [1, 2, 3, 5])
    one = [n, 10.0, 0.5, 2.0, 0.25, n, [x + 1 / 3 for x in ANGLES["uneven"](n)], [x + 1 / 7 for x in GI["ramp"](n)], [x + 1 / 3 for x in HI["drop"](n)]]
    field = ctx.choose("differs", FIELDS + ["centre in the middle", "even angles", "plain Gi", "plain Hi", "one list for both"])
    two = list(one)
    if field == "n":
        two[0] = n + 1
        for k in (6, 7, 8):
            two[k] = one[k] + [1.0]
    elif field in ("l", "g", "p", "etha"):
        two[FIELDS.index(field)] += 0.375
    elif field == "etha_zone":
        two[5] = 1
    elif field in ("angles", "Gi", "Hi"):
        k = FIELDS.index(field)
        two[k] = one[k][:-1] + [one[k][-1] + 0.0625]
    elif field == "centre in the middle":
        two[4:6] = [None, None]
    elif field == "one list for both":
        two[7] = two[8] = one[7]
    else:
        two[{"even angles": 6, "plain Gi": 7, "plain Hi": 8}[field]] = None
    plan = [one, two, one] if ctx.flag("turned") else [two, one, two]
    made = []
    for args in plan:
        keep = [list(x) if isinstance(x, list) else x for x in args]
        made.append((Graph.build_from_parameters(*args), keep))
        ctx.step(keep)
        ctx.equal(args, keep, "the lists that were passed")
        for gr, k in made:
            compare(ctx, gr, tuple(k))
    ctx.check(len({id(o) for gr, _ in made for o in gr.get_nodes()}) == sum(len(gr.get_nodes()) for gr, _ in made), "two cities share a place")
    ctx.state((n, field, plan[0] is one))


HARNESSES = [("alike", alike), ("parameters", body), ("pair", body_pair)]
BOUNDS = {"quick": "n in {0..5,7,8,11}; per-zone lists enumerated value by value for n<=2, shape menus above; all "
                   "combinations of l,g,p,eccentricity,angles,Gi,Hi; 4 sizes x 14 ways in which two cities built in turn differ in one parameter", "thorough": "n 0..12, per-zone lists for n<=3"}
ASSUMPTIONS = ["coordinates compared with relative tolerance 1e-6"]
