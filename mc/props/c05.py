"""C05 the origin-destination matrix generated from (y, a, alpha, beta)"""
from common import *


def ref_demand(nodes, n, y, a, alpha, beta):
    """nodes: [(id, kind, zone)]"""
    m = {(i, j): 0.0 for i, _, _ in nodes for j, _, _ in nodes}
    if n == 0:
        return m
    per_zone = y / n
    for i, ti, zi in nodes:
        for j, tj, zj in nodes:
            if ti == "P" and tj == "CBD":
                m[i, j] = per_zone * a * alpha
            elif ti == "P" and tj == "SC" and zi == zj:
                m[i, j] = per_zone * a * (beta if n > 1 else 1 - alpha)
            elif ti == "P" and tj == "SC":
                m[i, j] = per_zone * a * (1 - alpha - beta) / (n - 1)
            elif ti == "SC" and tj == "CBD":
                m[i, j] = per_zone * (1 - a) * (alpha / (1 - beta) if n > 1 else 1)
            elif ti == "SC" and tj == "SC" and zi != zj:
                m[i, j] = per_zone * (1 - a) * (1 - alpha - beta) / (1 - beta) / (n - 1)
    return m


def check_matrix(ctx, d, want, what):
    got = d.get_matrix()
    cells = {(int(i), int(j)): v for i in list(got) for j, v in list(got[i].items())}
    ctx.equal(set(cells), set(want), "cells of the matrix (%s)" % what)
    for k in want:
        ctx.close(cells[k], want[k], "trips %s (%s)" % (k, what), abs_=1e-9)
    ctx.close(d.get_total_trips(), sum(want.values()), "total trips (%s)" % what)
    ctx.validated()


SHARES = [0, 0.2, 0.25, 0.5, 0.8, 1]


def body(ctx):
    n = ctx.choose("n", list(range(0, 11)) if ctx.thorough else [0, 1, 2, 3, 4, 7, 13, 22])
    shape = ctx.choose("city", ["sym", "ids", "asym"]) if n else "sym"
    if n > 10 and shape == "asym":
        ctx.prune()
    g = city(n, shape=shape)
    nodes = [(int(o.id), kind(o), int(o.zone_id)) for o in g.get_nodes()]
    y = ctx.choose("y", [1000.0, 0, 1, 123456.75] if n < 10 else [1300.0])
    a = ctx.choose("a", SHARES)
    alpha = ctx.choose("alpha", SHARES)
    beta = ctx.choose("beta", [b for b in SHARES if b < 1 and alpha + b <= 1])
    d = Demand.build_from_parameters(g, y, a, alpha, beta)
    ctx.step((n, shape, y, a, alpha, beta))
    ctx.state((n, shape, y, a, alpha, beta))
    want = ref_demand(nodes, n, y, a, alpha, beta)
    check_matrix(ctx, d, want, "n=%d" % n)
    if n:
        ctx.close(d.get_total_trips(), y, "total trips differ from the announced demand")
        ctx.close(sum(want[i, j] for i, t, _ in nodes for j, _, _ in nodes if t == "P"), a * y, "trips of the peripheries")
    # a second matrix on the same city starts from zero
    e = Demand(g)
    check_matrix(ctx, e, {k: 0.0 for k in want}, "default matrix")
    check_matrix(ctx, d, want, "after another matrix was built")
    ctx.outcome = "n=%d" % n


def invalid(ctx):
    g = city(ctx.choose("n", [2, 1, 0]))
    y = ctx.choose("y", [10.0, 0, -1e-12, None, "9"])
    a = ctx.choose("a", [0.5, 0, 1, -1e-12, 1.000000000001, None, "0.5"])
    al = ctx.choose("alpha", [0.25, 0, 1, -1e-12, 1.000000000001, None, "0.5"])
    be = ctx.choose("beta", [0.5, 0, 0.75, 0.7500000001, 0.875, 0.999999999, 1, -1e-12, 1.000000000001, None, "0.5"])

    def num(v):
        return isinstance(v, (int, float))
    ok = all(num(v) for v in (y, a, al, be)) and y >= 0 and 0 <= a <= 1 and 0 <= al <= 1 and 0 <= be < 1 and al + be <= 1
    ctx.state((g.get_n(), y, a, al, be))
    ctx.step((y, a, al, be))
    if ok:
        ctx.check(Demand.parameters_validator(y, a, al, be) is True, "valid demand parameters are not valid")
        Demand.build_from_parameters(g, y, a, al, be)
    else:
        ctx.rejects(lambda: Demand.build_from_parameters(g, y, a, al, be),
                    "invalid demand parameters were accepted: %r" % ((y, a, al, be),), REJECT)
        ctx.rejects(lambda: Demand.parameters_validator(y, a, al, be),
                    "invalid demand parameters were validated: %r" % ((y, a, al, be),), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if ok else "rejected"


def alike(ctx):
    """two matrices that differ in one thing, generated one after the other for the same city, or for cities with the same places"""
    n = ctx.choose("n", [1, 2, 3, 5])
    shape = ctx.choose("city", ["sym", "ids"])
    g = city(n, shape=shape)
    h = g if ctx.flag("same city") else city(n, p=3.0, shape=shape)
    one = dict(y=900.0, a=0.5, alpha=0.25, beta=0.5)
    field = ctx.choose("differs", ["y", "a", "alpha", "beta", "shares swapped", "number of zones"])
    two = dict(one)
    if field == "number of zones":
        h = city(n + 1, shape=shape)
    elif field == "shares swapped":
        two["alpha"], two["beta"] = one["beta"], one["alpha"]
    else:
        two[field] = {"y": 350.0, "a": 0.75, "alpha": 0.5, "beta": 0.125}[field]
    plan = [(g, one), (h, two)]
    if ctx.flag("turned"):
        plan = plan[::-1]
    made = []
    for c, k in plan + plan[:1]:
        d = Demand.build_from_parameters(c, k["y"], k["a"], k["alpha"], k["beta"])
        want = ref_demand([(int(o.id), kind(o), int(o.zone_id)) for o in c.get_nodes()], len(c.get_zones()), k["y"], k["a"], k["alpha"], k["beta"])
        made.append((d, want))
        ctx.step(k)
        for i, (e, w) in enumerate(made):
            check_matrix(ctx, e, w, "matrix %d of %d, they differ in %s" % (i + 1, len(made), field))
    ctx.state((n, shape, field, plan[0][1]))


HARNESSES = [("alike", alike), ("structure", body), ("invalid", invalid)]
BOUNDS = {"quick": "n in {0,1,2,3,4,7,13} x 3 city shapes x y(4) x a(6) x all (alpha,beta) pairs of a 6-value menu; all "
                   "combinations of boundary and ill-typed parameters; pairs of matrices that differ in one thing, for one city and for two", "thorough": "n 0..10"}
ASSUMPTIONS = ["with no zone there is no pair that can carry trips: the matrix is empty whatever the demand"]
