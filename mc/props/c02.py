"""C02 invalid city parameters, places, zones and streets are rejected; valid ones are accepted"""
from common import *
from sidermit.city.graph import Node, Zone, Edge


def valid_params(n, l, g, p, etha, ez, angles, gi, hi):
    if not isinstance(n, int) or n < 0 or l < 0 or g < 0 or p < 0:
        return False
    if (etha is None) != (ez is None):
        return False
    if etha is not None and not (0 <= etha <= 1 and isinstance(ez, int) and 1 <= ez <= n):
        return False
    for lst, top in ((angles, 360), (gi, None), (hi, None)):
        if lst is not None:
            if len(lst) != n or any(v < 0 or (top is not None and v > top) for v in lst):
                return False
    return True


def lists(ctx, label, n, good, bad, edge):
    """None, a good list, a list with one bad or one boundary value at any position, wrong lengths"""
    m = n if isinstance(n, int) and n >= 0 else 2
    opts = [None, [good] * m, [good] * (m + 1)]
    if m:
        opts.append([good] * (m - 1))
    for b in bad + edge:
        for i in range(m):
            opts.append([good] * i + [b] + [good] * (m - 1 - i))
    return ctx.choose(label, opts)


def body(ctx):
    n = ctx.choose("n", [2, 0, 1, 3, -1, 2.5, 5] if ctx.thorough else [2, 0, 1, 3, -1, 2.5])
    l = ctx.choose("l", [10.0, 0, -1e-12])
    g = ctx.choose("g", [0.5, 0, -1e-12])
    p = ctx.choose("p", [2, 0, -1e-12])
    etha = ctx.choose("etha", [None, 0.5, 0, 1, -1e-12, 1.000000000001])
    ez = ctx.choose("etha_zone", [None, 1, 0, -1, 2, 3, 4, 1.5])
    nbad = sum(x == -1e-12 for x in (l, g, p))
    if nbad > 1:
        ctx.prune()
    angles = lists(ctx, "angles", n, 30.0, [-1e-12, 360.0000000001], [0, 360])
    gi = lists(ctx, "Gi", n, 1.0, [-1e-12], [0]) if not nbad else None
    hi = lists(ctx, "Hi", n, 1.5, [-1e-12], [0]) if not nbad else None
    args = (n, l, g, p, etha, ez, angles, gi, hi)
    want = valid_params(*args)
    ctx.state(args)
    ctx.step(args)
    if want:
        ctx.check(Graph.parameters_validator(*args) is True, "valid parameters are not reported as valid", args=args)
        gr = Graph.build_from_parameters(*args)
        ctx.equal(len(gr.get_nodes()), 2 * n + 1, "places of a valid city")
    else:
        ctx.rejects(lambda: Graph.build_from_parameters(*args), "invalid city parameters were accepted: %r" % (args,), REJECT)
        ctx.rejects(lambda: Graph.parameters_validator(*args), "invalid city parameters were validated: %r" % (args,), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if want else "rejected"


def long_lists(ctx):
    """one bad value at any position of a list of a city of many zones"""
    n = ctx.choose("n", [4, 6, 9, 14, 23])
    which = ctx.choose("list", ["angles", "Gi", "Hi"])
    good = {"angles": 360.0 / n, "Gi": 1.0, "Hi": 1.5}[which]
    at = ctx.choose("position", list(range(n)))
    v = ctx.choose("value", [-1e-12, -1.0, -400.0, 0] + ([360.0000000001, 360, 1e9] if which == "angles" else [1e9]))
    args = {"angles": None, "Gi": None, "Hi": None}
    args[which] = [good] * at + [v] + [good] * (n - 1 - at)
    if which == "angles" and ctx.choose("others", ["same", "uneven"]) == "uneven":
        args[which] = [v if i == at else 3.0 * i for i in range(n)]
    for m in (n, n + 1, n - 1, 2 * n):
        want = valid_params(m, 10.0, 0.5, 2, None, None, args["angles"], args["Gi"], args["Hi"])
        a = (m, 10.0, 0.5, 2, None, None, args["angles"], args["Gi"], args["Hi"])
        ctx.state(a)
        ctx.step(a)
        if want:
            ctx.check(Graph.parameters_validator(*a) is True, "valid parameters are not reported as valid", args=a)
            ctx.equal(len(Graph.build_from_parameters(*a).get_nodes()), 2 * n + 1, "places of a valid city")
        else:
            ctx.rejects(lambda: Graph.build_from_parameters(*a), "invalid city parameters were accepted: %r" % (a,), REJECT)
            ctx.rejects(lambda: Graph.parameters_validator(*a), "invalid city parameters were validated: %r" % (a,), REJECT)
    ctx.validated()
    ctx.outcome = which


TYPES = {"Node": Node, "CBD": CBD, "P": Periphery, "SC": Subcenter}


def places(ctx):
    t = ctx.choose("type", list(TYPES))
    i = ctx.choose("id", [1, 0, 77, None])
    name = ctx.choose("name", ["x", "", None])
    z = ctx.choose("zone", [0, 1, 2, None])
    r = ctx.choose("radius", [1.0, 0, -1e-12])
    a = ctx.choose("angle", [45.0, 0, 360, -1e-12, 360.0000000001])
    w = ctx.choose("width", [2.0, 0, -1e-12])
    ok = name is not None and i is not None and z is not None and r >= 0 and 0 <= a <= 360 and w >= 0
    if t == "CBD":
        ok = ok and z == 0
    args = (i, 1.5, -2.5, r, a, w, z, name)
    ctx.state((t, args))
    ctx.step((t, args))
    if ok:
        o = TYPES[t](*args)
        ctx.equal((o.id, o.x, o.y, o.radius, o.angle, o.width, o.zone_id, o.name), args, "content of a place")
    else:
        ctx.rejects(lambda: TYPES[t](*args), "an invalid place was accepted: %s%r" % (t, args), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if ok else "rejected"


def mk(t, i, z):
    return TYPES[t](i, 1.0, 2.0, 3.0, 40.0, 1.0, z, "%s%s" % (t, i)) if t in TYPES else None


def zones(ctx):
    z = ctx.choose("zone", [1, 2, 0, -1, None])
    tp = ctx.choose("periphery", ["P", "SC", "CBD", "Node", "none"])
    ts = ctx.choose("subcenter", ["SC", "P", "CBD", "Node", "none"])
    zp = ctx.choose("periphery.zone", [1, 2])
    zs = ctx.choose("subcenter.zone", [1, 2])
    p = mk(tp, 5, 0 if tp == "CBD" else zp)
    s = mk(ts, 6, 0 if ts == "CBD" else zs)
    ok = z is not None and z >= 1 and tp == "P" and ts == "SC" and zp == z and zs == z
    ctx.state((z, tp, ts, zp, zs))
    ctx.step((z, tp, ts, zp, zs))
    if ok:
        o = Zone(z, p, s)
        ctx.check(o.id == z and o.periphery is p and o.subcenter is s, "content of a zone")
    else:
        ctx.rejects(lambda: Zone(z, p, s), "an invalid zone was accepted: %r" % ((z, tp, ts, zp, zs),), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if ok else "rejected"


def streets(ctx):
    i = ctx.choose("id", [1, 0, None])
    a = ctx.choose("from", ["P", "SC", "CBD"])
    b = ctx.choose("to", ["P", "SC", "CBD"])
    za = 0 if a == "CBD" else ctx.choose("from.zone", [1, 2])
    zb = 0 if b == "CBD" else ctx.choose("to.zone", [1, 2])
    if a == b == "CBD":
        ctx.prune()         # not documented either way
    ok = i is not None and (a, b) not in {("P", "P"), ("P", "CBD"), ("CBD", "P")}
    na, nb = mk(a, 1, za), mk(b, 2, zb)
    ctx.state((i, a, b, za, zb))
    ctx.step((i, a, b, za, zb))
    if ok:
        e = Edge(i, na, nb)
        ctx.check(e.id == i and e.node1 is na and e.node2 is nb, "content of a street")
    else:
        ctx.rejects(lambda: Edge(i, na, nb), "an invalid street was accepted: %r" % ((i, a, b),), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if ok else "rejected"


HARNESSES = [("parameters", body), ("long lists", long_lists), ("places", places), ("zones", zones), ("streets", streets)]
BOUNDS = {"quick": "boundary values of every parameter, all combinations with at most one of l,g,p out of range; every position of a bad value in lists of up to 14 zones; all "
                   "places/zones/streets over 4 place types", "thorough": "same with n=5"}
