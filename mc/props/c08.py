"""C08 a custom line is accepted exactly when it is a valid line of the city"""
import itertools
from collections import defaultdict
from common import *
from bfs import observe


def bus(d=4, name="bus"):
    return TransportMode(name, 1, 8.61, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, d, 28)


def s(seq):
    return ",".join(map(str, seq))


def ref_route_ok(i, r, si, sr):
    if not i or not r or i[0] != r[-1] or r[0] != i[-1]:
        return False
    for nodes, stops in ((i, si), (r, sr)):
        if len(set(nodes)) != len(nodes) or not stops or any(x not in nodes for x in stops):
            return False
        if stops[0] != nodes[0] or stops[-1] != nodes[-1]:
            return False
    return True


def ref_edges_ok(edges, seq):
    return all((a, b) in edges for a, b in zip(seq, seq[1:]))


def judge(ctx, g, i, r, si, sr, note, others=()):
    edges = {(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()}
    net = TransportNetwork(g)
    m = bus()
    for k, q in enumerate(others):
        net.add_route(Route("b%d" % k, m, s(q), s(q[::-1]), s(q), s(q[::-1])))
    ok = ref_route_ok(i, r, si, sr)
    ctx.state((note, i, r, si, sr))
    ctx.step((i, r, si, sr))
    if not ok:
        ctx.rejects(lambda: Route("x", m, s(i), s(r), s(si), s(sr)), "an invalid line was accepted: %r" % ((i, r, si, sr),),
                    REJECT)
        ctx.outcome = "not a line"
        ctx.validated()
        return
    route = Route("x", m, s(i), s(r), s(si), s(sr))
    ctx.equal((route.id, route.nodes_sequence_i, route.nodes_sequence_r, route.stops_sequence_i, route.stops_sequence_r),
              ("x", list(i), list(r), list(si), list(sr)), "content of a line")
    before = observe(net)
    if ref_edges_ok(edges, i) and ref_edges_ok(edges, r):
        net.add_route(route)
        ctx.check([x.id for x in net.get_routes()] == ["b%d" % k for k in range(len(others))] + ["x"] and net.get_route("x") is route and net.get_modes() == [m],
                  "a valid line is not in the network after being added")
        ctx.outcome = "accepted"
    else:
        ctx.rejects(lambda: net.add_route(route), "a line along streets that do not exist was accepted: %r" % ((i, r),), REJECT)
        ctx.check(observe(net) == before, "a refused line left traces in the network")
        ctx.outcome = "no such street"
    ctx.validated()


def pairs(ctx):
    """every pair of node sequences on small cities, all nodes being stops"""
    n = ctx.choose("n", [1, 2])
    L = (4 if n == 1 else 3) if ctx.thorough else (3 if n == 1 else 3)
    g = city(n)
    alpha = list(range(2 * n + 1)) + [9]
    i = []
    for k in range(ctx.choose("len I", list(range(2, L + 1)))):
        i.append(ctx.choose("I[%d]" % k, alpha))
    for r in itertools.chain(*[itertools.product(alpha, repeat=k) for k in range(2, L + 1)]):
        judge(ctx, g, i, list(r), i, list(r), n)


def paths(ctx):
    """every forward sequence on a three zone city with its reverse, and every return for a few forward ones"""
    shape = ctx.choose("city", ["sym", "ids"])
    g = city(3, shape=shape)
    ids = [int(o.id) for o in g.get_nodes()]
    alpha = ids + [9999]
    mode = ctx.choose("which", ["forward+reverse", "return", "mixed"])
    if mode == "forward+reverse":
        L = ctx.choose("len", [2, 3, 4, 5] if ctx.thorough else [2, 3, 4])
        head = [ctx.choose("I[%d]" % k, alpha) for k in range(2)]
        for rest in itertools.product(alpha, repeat=L - 2):
            i = head + list(rest)
            judge(ctx, g, i, i[::-1], i, i[::-1], (shape, mode))
        return
    c, p1, s1, p2, s2, p3, s3 = ids[0], ids[1], ids[2], ids[3], ids[4], ids[5], ids[6]
    i = ctx.choose("I", [[p1, s1, c], [p1, s1, c, s2, p2], [s1, s2, s3], [s1, c], [p1, s1, s2, p2]])
    if mode == "return":
        L = ctx.choose("len", [0, 1, 2, 3])
        for mid in itertools.product(alpha, repeat=L):
            r = [i[-1]] + list(mid) + [i[0]]
            judge(ctx, g, i, r, [i[0], i[-1]], [r[0], r[-1]], (shape, mode))
        return
    # forward goes wrong somewhere, return is fine
    for k in range(len(i)):
        for x in alpha:
            j = i[:k] + [x] + i[k + 1:]
            judge(ctx, g, j, i[::-1], [j[0], j[-1]], i[::-1], (shape, mode))
            judge(ctx, g, i, j[::-1], i, [j[-1], j[0]], (shape, mode))


def stops(ctx):
    """every subset of stops in both directions, and foreign stops at any place"""
    n = ctx.choose("n", [2, 3])
    g = city(n)
    i = ctx.choose("I", [[1, 2, 0, 4, 3], [1, 2, 4, 3], [2, 0, 4]])
    r = ctx.choose("R", [i[::-1], {1: [3, 4, 2, 1] if len(i) == 5 else [3, 4, 0, 2, 1], 2: [4, 2]}[i[0]]])
    si = ctx.subset("SI", i)
    fi = ctx.choose("foreign I", [None] + list(range(len(si) + 1)))
    if fi is not None:
        si = si[:fi] + [ctx.choose("node", [x for x in (0, 2, 4, 9) if x not in i] or [9])] + si[fi:]
    for k in range(2 ** len(r)):
        sr = [x for b, x in enumerate(r) if k >> b & 1]
        judge(ctx, g, i, r, si, sr, n)
    for at in range(3):
        judge(ctx, g, i, r, si, r[:at] + [9] + r[at:], n)


def long(ctx):
    """lines of many places: a place visited again after any number of steps, stops that are missing, foreign or at the wrong end anywhere"""
    g = city(8, shape=ctx.choose("city", ["sym", "ids"]))
    w = [int(o.id) for o in g.get_nodes()]
    by = {(kind(o), int(o.zone_id)): int(o.id) for o in g.get_nodes()}
    i = [by["P", 1], by["SC", 1]] + [by["SC", z] for z in range(2, 8)] + [by["P", 7]]
    r = {"same way": i[::-1], "across": [i[-1], by["SC", 7], by["CBD", 0], by["SC", 1], i[0]]}[ctx.choose("return", ["same way", "across"])]
    what = ctx.choose("deviation", ["none", "again", "skip", "stop", "foreign stop", "ends"])
    if what == "none":
        judge(ctx, g, i, r, i, r, what)
        judge(ctx, g, i, r, [i[0], i[-1]], [r[0], r[-1]], what)
        return
    at = ctx.choose("at", list(range(len(i) + 1)))
    if what == "again":                 # the place at one position entered again at another one
        for b in range(len(i)):
            j = i[:at] + [i[b]] + i[at:]
            judge(ctx, g, j, r, [j[0], j[-1]], r, what)
            judge(ctx, g, j, j[::-1], [j[0], j[-1]], [j[-1], j[0]], what)
            judge(ctx, g, r[::-1], j[::-1], [r[-1], r[0]], [j[-1], j[0]], what)
    elif what == "skip":                # a place is left out, or another one taken instead
        for x in [None] + w + [9999]:
            j = i[:at] + ([] if x is None else [x]) + i[at + 1:]
            if len(set(j)) < len(j):
                continue
            judge(ctx, g, j, r, [j[0], j[-1]], r, what)
            judge(ctx, g, r[::-1], j[::-1], [r[-1], r[0]], [j[-1], j[0]], what)
    elif what == "stop":                # all stops but one
        q = i[:at] + i[at + 1:]
        judge(ctx, g, i, r, q, r, what)
        judge(ctx, g, r[::-1], i[::-1], r[::-1], q[::-1], what)
    elif what == "foreign stop":
        for x in [y for y in w if y not in i] + [9999]:
            judge(ctx, g, i, r, i[:at] + [x] + i[at:], r, what)
            judge(ctx, g, r[::-1], i[::-1], r[::-1], (i[:at] + [x] + i[at:])[::-1], what)
    else:                               # lines that begin or end elsewhere
        for b in range(at + 1, len(i) + 1):
            j = i[at:b]
            if len(j) > 1:
                judge(ctx, g, j, r, j, r, what)
                judge(ctx, g, i, r, j, r, what)
                judge(ctx, g, j, j[::-1], j, j[::-1], what)
                judge(ctx, g, i, i[::-1], i, j[::-1], what)


def crowded(ctx):
    """the next line of a network that has dozens of lines: every forward and every return over three to four places"""
    g = city(2, shape=ctx.choose("city", ["sym", "ids"]))
    ids = [int(o.id) for o in g.get_nodes()]
    c, p1, s1, p2, s2 = ids
    before = [[p1, s1, c], [s1, c, s2], [p2, s2, s1], [s2, p2]] * ctx.choose("lines before", [3, 9])
    way = ctx.choose("direction", ["I", "R"])
    k = ctx.choose("places", [3, 4])
    a = ctx.choose("from", ids)
    good = {}
    adj = defaultdict(list)
    for e in g.get_edges():
        adj[int(e.node1.id)].append(int(e.node2.id))
    todo = [[x] for x in ids]
    while todo:                         # one valid way back per pair of places
        q = todo.pop(0)
        good.setdefault((q[0], q[-1]), q)
        todo += [q + [y] for y in adj[q[-1]] if y not in q and (q[0], y) not in good]
    for rest in itertools.product(ids, repeat=k - 1):
        q = [a] + list(rest)
        if q[0] == q[-1]:
            continue
        back = good[q[-1], q[0]]
        i, r = (q, back) if way == "I" else (back, q)
        judge(ctx, g, i, r, [i[0], i[-1]], [r[0], r[-1]], "crowded %d" % len(before), before)


def missing(ctx):
    """absent fields"""
    f = [ctx.choose("nodes I", ["1,2,0", "", None]), ctx.choose("nodes R", ["0,2,1", "", None]),
         ctx.choose("stops I", ["1,2,0", "1,0", "", None]), ctx.choose("stops R", ["0,2,1", "", None])]
    m = ctx.choose("mode", [bus(), None, "bus", 3])
    rid = ctx.choose("id", ["x", "", 0, None])
    ok = all(f) and isinstance(m, TransportMode) and rid is not None
    ctx.state((f, str(type(m)), rid))
    ctx.step((f, rid))
    if ok:
        r = Route(rid, m, *f)
        ctx.equal(r.id, rid, "id of a line")
        ctx.check(r.mode is m, "mode of a line")
    else:
        ctx.rejects(lambda: Route(rid, m, *f), "an incomplete line was accepted: %r" % ((rid, f),), REJECT)
    ctx.validated()
    ctx.outcome = "accepted" if ok else "rejected"


def ends(ctx):
    """stops of which the first or the last one is not where the line begins or ends, in any order and number"""
    n = ctx.choose("n", [2, 3])
    g = city(n, shape=ctx.choose("city", ["sym", "ids"]))
    by = {(kind(o), int(o.zone_id)): int(o.id) for o in g.get_nodes()}
    i = [by["P", 1], by["SC", 1], by["CBD", 0], by["SC", 2], by["P", 2]]
    cut = ctx.choose("places", [(0, 5), (0, 3), (1, 4), (0, 4)])
    i = i[cut[0]:cut[1]]
    for k in range(1, len(i) + 1):
        for q in itertools.permutations(i, k):
            if q[0] != i[0] or q[-1] != i[-1]:
                judge(ctx, g, i, i[::-1], list(q), i[::-1], n)
                judge(ctx, g, i, i[::-1], i, list(q)[::-1], n)


def digits(ctx):
    """ids that are parts of each other: every subset of stops with any other id put in anywhere"""
    ids = ctx.choose("ids", [[12, 1, 2, 21, 122], [1, 11, 111, 1111, 11111], [0, 10, 100, 20, 2]])
    pos = [(0, 0, "CBD", 0), (15, 0, "P", 1), (10, 0, "SC", 1), (-15, 0, "P", 2), (-10, 0, "SC", 2)]
    g = Graph.build_from_content(pajek([(i, "n%d" % k, x, y, t, z, 2) for k, (i, (x, y, t, z)) in enumerate(zip(ids, pos))]))
    c, p1, s1, p2, s2 = ids
    i = ctx.choose("I", [[p1, s1, c], [p1, s1, s2, p2], [s1, c, s2], [c, s1, p1], [s2, p2]])
    more = sorted(set(ids + [1, 2, 12, 11, 22, 10, 0, 112]) - set(i))
    for k in range(2 ** (len(i) - 2)):
        si = i[:1] + [x for b, x in enumerate(i[1:-1]) if k >> b & 1] + i[-1:]
        judge(ctx, g, i, i[::-1], si, si[::-1], "digits")
        for at in range(len(si) + 1):
            for x in more:
                bad = si[:at] + [x] + si[at:]
                judge(ctx, g, i, i[::-1], bad, si[::-1], "digits")
                judge(ctx, g, i, i[::-1], si, bad[::-1], "digits")
    for at in range(len(i)):
        for x in more:
            j = i[:at] + [x] + i[at + 1:]
            judge(ctx, g, j, j[::-1], j, j[::-1], "digits")
            judge(ctx, g, j, i[::-1], j, i[::-1], "digits")


def refused(ctx):
    """a refused line leaves no trace: its id can be used by the next one"""
    shape = ctx.choose("city", ["sym", "ids"])
    g = city(2, shape=shape)
    c, p1, s1, p2, s2 = [int(o.id) for o in g.get_nodes()]
    net = TransportNetwork(g)
    a, b, other, twin = bus(1), bus(1, "metro"), bus(1, "tram"), bus(1)
    k = ctx.choose("lines before", [0, 1, 2, 12, 40])
    for rid, m, q in [("A", a, [p1, s1, c]), ("B", b, [s1, c, s2])][:k] + [("C%d" % i, a if i % 2 else b, [p1, s1, c, s2]) for i in range(k - 2)]:
        net.add_route(Route(rid, m, s(q), s(q[::-1]), s(q), s(q[::-1])))
    whys = ctx.choose("why", ["street", "return street", "unknown place", "mode", "twin mode", "duplicate", "no line"])
    t = ctx.choose("times", [1, 2])
    good = [p2, s2, c]
    q, r, m, rid = good, good[::-1], a, "X"
    if whys == "street":
        q, r = [p1, c, s1], [s1, p1]
    elif whys == "return street":
        q, r = [s1, c, s2], [s2, p1, s1]
    elif whys == "unknown place":
        q, r = [s1, 777, c], [c, s1]
    elif whys == "mode":
        if k < 2:
            ctx.prune()
        m = other
    elif whys == "twin mode":
        if k < 1:
            ctx.prune()
        m = twin
    elif whys == "duplicate":
        if k < 1:
            ctx.prune()
        rid = "A"
    before = observe(net)
    ctx.state((shape, k, whys, t))
    for _ in range(t):
        ctx.step(whys)
        if whys == "no line":
            ctx.rejects(lambda: net.add_route("X"), "something else than a line was added", REJECT)
        else:
            line = Route(rid, m, s(q), s(r), s(q), s(r))
            ctx.rejects(lambda: net.add_route(line), "an invalid line was added: %s" % whys, REJECT)
        ctx.check(observe(net) == before, "a refused line left traces in the network", why=whys)
    line = Route("X", a, s(good), s(good[::-1]), s(good), s(good[::-1]))
    net.add_route(line)
    ctx.check([x.id for x in net.get_routes()] == ["A", "B"][:k] + ["C%d" % i for i in range(k - 2)] + ["X"] and net.get_route("X") is line,
              "a valid line is not in the network after a refused one", why=whys)
    ctx.validated()
    ctx.outcome = whys


def elsewhere(ctx):
    """the same line is offered to the networks of two cities with other streets, in turn; streets and stops are those of each city"""
    small, large = city(2), city(ctx.choose("zones", [3, 4, 5]))
    first = ctx.choose("first", [0, 1])
    gs = [small, large][::1 - 2 * first]
    one = bus()
    nets = [[TransportNetwork(g) for _ in range(2)] for g in gs]
    a = ctx.choose("from", list(range(5)))
    k = ctx.choose("places", [2, 3])
    share = ctx.flag("one line object")
    way = ctx.choose("id", ["same", "own"])
    edges = [{(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()} for g in gs]
    for j, rest in enumerate(itertools.product(list(range(7)), repeat=k - 1)):
        q = [a] + list(rest)
        if len(set(q)) < len(q):
            continue
        line = Route("x" if way == "same" else "x%d" % j, one, s(q), s(q[::-1]), s(q), s(q[::-1]))
        for turn in (0, 1):
            for i in (0, 1):
                net = nets[i][turn]
                r = line if share else Route(line.id, one, s(q), s(q[::-1]), s(q), s(q[::-1]))
                ok = ref_edges_ok(edges[i], q) and ref_edges_ok(edges[i], q[::-1])
                if ok:
                    net.add_route(r)
                    ctx.check(net.get_route(r.id) is r, "a valid line is not in the network after being added", line=q)
                    net.remove_route(r.id)
                else:
                    ctx.rejects(lambda: net.add_route(r), "a line of another city was accepted: %r" % (q,), REJECT)
                ctx.check(not net.get_routes(), "a line stayed behind", line=q)
        ctx.step(q)
        ctx.state((len(large.get_zones()), first, q, way))
    ctx.validated()


HARNESSES = [("elsewhere", elsewhere), ("crowded", crowded), ("sequence pairs", pairs), ("paths", paths), ("stops", stops), ("ends", ends), ("long lines", long), ("digits", digits), ("refused", refused), ("missing fields", missing)]
BOUNDS = {"quick": "every line of 2..3 places offered in turn to networks of two cities; every line of 3..4 places into a network of 12 or 36 lines; every pair of sequences of 2..3 nodes on 1 and 2 zone cities (plus an unknown node), every sequence of "
                   "<=4 nodes on a 3 zone city, every order and number of stops that begin or end elsewhere, every deviation at every position of a line of nine places, every subset of stops of 3 paths, ids that are parts of each other with any id in place of or between the stops, seven ways of refusal followed by a valid line of the same id", "thorough": "one node longer"}
ASSUMPTIONS = ["stop lists that repeat or reorder stops, and one-node lines, are outside the documented rules and are not "
               "judged"]
