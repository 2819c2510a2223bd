"""C10 the predefined line families cover the city along real streets"""
from common import *
from bfs import observe
from c08 import bus
from c09 import metro


def ref_family(fam, zones, cbd, jump, short, express):
    """[(forward nodes, forward stops)] in zone order; zones = [(p, sc)]"""
    n = len(zones)
    out = []
    if fam == "feeder":
        return [((p, s), (p, s)) for p, s in zones]
    if fam == "radial":
        for p, s in zones:
            if short:
                out.append(((s, cbd), (s, cbd)))
            else:
                out.append(((p, s, cbd), (p, cbd) if express else (p, s, cbd)))
        return out
    if fam in ("diametral", "tangential"):
        # opposite zones are joined once
        for z in range(n // 2 if 2 * jump == n else n):
            w = (z + jump) % n
            p, s = zones[z]
            p2, s2 = zones[w]
            mid = (cbd,) if fam == "diametral" else tuple(zones[(z + k) % n][1] for k in range(1, jump))
            nodes = (s,) + mid + (s2,)
            if not short:
                nodes = (p,) + nodes + (p2,)
            out.append((nodes, (nodes[0], nodes[-1]) if express else nodes))
        return out
    raise KeyError(fam)


def call(net, fam, mode, jump, short, express):
    if fam == "feeder":
        return net.get_feeder_routes(mode)
    if fam == "radial":
        return net.get_radial_routes(mode, short, express)
    if fam == "diametral":
        return net.get_diametral_routes(mode, jump, short, express)
    return net.get_tangencial_routes(mode, jump, short, express)


def families(ctx):
    n = ctx.choose("n", list(range(0, 15)) + [21, 30] if ctx.thorough else list(range(0, 11)) + [13, 20])
    shape = ctx.choose("city", ["sym", "ids", "asym"] if n and n <= 10 else ["sym"])
    g = city(n, shape=shape)
    zones = [(int(z.periphery.id), int(z.subcenter.id)) for z in g.get_zones()]
    cbd = int(g.get_cbd().id)
    edges = {(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()}
    fam = ctx.choose("family", ["feeder", "radial", "diametral", "tangential"])
    m = ctx.choose("mode", [bus(), metro()] if ctx.thorough else [bus()])
    short = ctx.flag("short") if fam != "feeder" else False
    express = ctx.flag("express") if fam != "feeder" else False
    jump = None
    net = TransportNetwork(g)
    before = observe([g, net])
    if fam in ("diametral", "tangential"):
        jump = ctx.choose("jump", list(range(-1, n // 2 + 3)) + [0.5, 1.5])
        if not (isinstance(jump, int) and 1 <= jump <= n / 2):
            ctx.rejects(lambda: call(net, fam, m, jump, short, express), "an invalid jump was accepted: %r of %d zones" % (jump, n),
                        REJECT)
            ctx.validated()
            ctx.outcome = "invalid jump"
            return
    routes = call(net, fam, m, jump, short, express)
    ctx.step((n, shape, fam, jump, short, express))
    ctx.state((n, shape, fam, jump, short, express))
    ctx.check(observe([g, net]) == before, "asking for predefined lines changed the network")
    want = ref_family(fam, zones, cbd, jump, short, express)
    got = [(tuple(r.nodes_sequence_i), tuple(r.stops_sequence_i)) for r in routes]
    ctx.equal(got, want, "forward direction of the %s lines (jump=%s short=%s express=%s)" % (fam, jump, short, express))
    got = [(tuple(r.nodes_sequence_r), tuple(r.stops_sequence_r)) for r in routes]
    ctx.equal(got, [(a[::-1], b[::-1]) for a, b in want], "return direction of the %s lines" % fam)
    ids = [r.id for r in routes]
    ctx.check(len(set(ids)) == len(ids), "two lines of a family share an id", ids=ids)
    for r in routes:
        ctx.check(r.mode is m, "mode of a predefined line")
        for seq in (r.nodes_sequence_i, r.nodes_sequence_r):
            ctx.check(all((a, b) in edges for a, b in zip(seq, seq[1:])), "a predefined line leaves the streets", line=r.id,
                      nodes=seq)
        net.add_route(r)
        ctx.check(net.get_route(r.id) is r, "a predefined line is not in the network after being added")
    ctx.equal(len(net.get_routes()), len(want), "lines in the network")
    ctx.validated()
    ctx.outcome = "%s n=%d" % (fam, n)


def circular(ctx):
    n = ctx.choose("n", list(range(0, 15)) + [21, 30] if ctx.thorough else list(range(0, 11)) + [13, 20])
    shape = ctx.choose("city", ["sym", "ids", "asym"] if n and n <= 10 else ["sym"])
    g = city(n, shape=shape)
    net = TransportNetwork(g)
    m = bus()
    ctx.state((n, shape))
    ctx.step((n, shape))
    if n <= 1:
        ctx.rejects(lambda: net.get_circular_routes(m), "circular lines in a city with %d zones" % n, REJECT)
        ctx.validated()
        ctx.outcome = "rejected"
        return
    sc = [int(z.subcenter.id) for z in g.get_zones()]
    edges = {(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()}
    a, b = net.get_circular_routes(m)
    ctx.equal((a.nodes_sequence_i, a.stops_sequence_i, a.nodes_sequence_r, a.stops_sequence_r),
              (sc + sc[:1], sc + sc[:1], [], []), "forward ring")
    back = sc[::-1] + [sc[-1]]
    ctx.equal((b.nodes_sequence_r, b.stops_sequence_r, b.nodes_sequence_i, b.stops_sequence_i), (back, back, [], []),
              "backward ring")
    for seq in (a.nodes_sequence_i, b.nodes_sequence_r):
        ctx.check(all((x, y) in edges for x, y in zip(seq, seq[1:])), "a ring leaves the streets")
    ctx.check(a.id != b.id and a.mode is m and b.mode is m, "ids and mode of the rings")
    net.add_route(a)
    net.add_route(b)
    ctx.equal([r.id for r in net.get_routes()], [a.id, b.id], "rings in the network")
    ctx.validated()
    ctx.outcome = "n=%d" % n


def together(ctx):
    """all families of both modes share one network: ids never clash"""
    n = ctx.choose("n", list(range(2, 13)) if ctx.thorough else [2, 3, 4, 5, 6, 11, 12, 17])
    order = ctx.choose("order", ["bus first", "metro first"])
    g = city(n)
    net = TransportNetwork(g)
    count = 0
    # names that continue each other
    two = ctx.choose("names", [("bus", "metro"), ("bus", "bus1"), ("bus", "bus_1"), ("1", "11"), ("R", "S_R"), ("", "_")])
    two = [bus(name=two[0]), metro(name=two[1])]
    for m in (two if order == "bus first" else two[::-1]):
        groups = [net.get_circular_routes(m), net.get_feeder_routes(m), net.get_radial_routes(m),
                  net.get_radial_routes(m, short=True), net.get_radial_routes(m, express=True)]
        for jump in range(1, n // 2 + 1):
            for short in (False, True):
                for express in (False, True):
                    groups.append(net.get_diametral_routes(m, jump, short, express))
                    groups.append(net.get_tangencial_routes(m, jump, short, express))
        for gr in groups:
            for r in gr:
                net.add_route(r)
                count += 1
                ctx.step()
    ctx.state((n, order))
    ctx.equal(len(net.get_routes()), count, "lines in the network")
    ctx.validated()
    ctx.outcome = "n=%d lines=%d" % (n, count)


def bad_mode(ctx):
    n = ctx.choose("n", [2, 4])
    fam = ctx.choose("family", ["feeder", "radial", "diametral", "tangential", "circular"])
    m = ctx.choose("mode", [None, "bus", 3])
    net = TransportNetwork(city(n))
    ctx.state((n, fam, m))
    if fam == "circular":
        ctx.rejects(lambda: net.get_circular_routes(m), "lines without a mode", REJECT)
    else:
        ctx.rejects(lambda: call(net, fam, m, 1, False, False), "lines without a mode", REJECT)
    ctx.validated()


CALLS = [("circular", None, False, False), ("feeder", None, False, False)] + [("radial", None, a, b) for a in (False, True) for b in (False, True)] + [
    (x, j, a, b) for x in ("diametral", "tangential") for j in (1, 2, 3) for a in (False, True) for b in (False, True)]


def answer(ctx, g, net, c, m, told):
    """ask a network for the lines of a family"""
    fam, jump, short, express = c
    zones = [(int(z.periphery.id), int(z.subcenter.id)) for z in g.get_zones()]
    n = len(zones)
    if (jump is not None and jump > n / 2) or (fam == "circular" and n < 2):
        ctx.rejects(lambda: net.get_circular_routes(m) if fam == "circular" else call(net, fam, m, jump, short, express),
                    "lines without places (%s)" % (told,), REJECT)
        return []
    if fam == "circular":
        sc = [x[1] for x in zones]
        got = net.get_circular_routes(m)
        q, b = sc + sc[:1], sc[::-1] + [sc[-1]]
        want = [(q, q, [], []), ([], [], b, b)]
    else:
        got = call(net, fam, m, jump, short, express)
        want = [tuple(map(list, (a, b, a[::-1], b[::-1]))) for a, b in ref_family(fam, zones, int(g.get_cbd().id), jump, short, express)]
    ctx.equal([(r.nodes_sequence_i, r.stops_sequence_i, r.nodes_sequence_r, r.stops_sequence_r) for r in got], want, "lines (%s)" % (told,))
    ctx.check(all(r.mode is m for r in got), "mode of the lines (%s)" % (told,))
    return got


def again(ctx):
    """the same network is asked over and over, for one and another family, with other modes, beside another network"""
    n = ctx.choose("n", [3, 4, 6, 7])
    a = ctx.choose("first", CALLS)
    b = ctx.choose("second", CALLS)
    g, h = city(n, shape="ids"), city(5)
    net, other = TransportNetwork(g), TransportNetwork(h)
    ms = [bus(), metro(), bus()]
    told = []
    first = None
    for i, (who, c, m) in enumerate([(net, a, 0), (net, b, 0), (net, a, 1), (other, b, 0), (net, b, 2), (other, a, 0), (net, a, 0), (net, b, 1), (net, a, 0)]):
        told.append((who is other, c, m))
        got = answer(ctx, g if who is net else h, who, c, ms[m], told)
        if i == 0:
            first = got
            seen = observe(first)
            for r in got:
                net.add_route(r)
        ctx.check(not any(x is y for x in got for y in first) or i == 0, "a line that is part of the network is handed out again (%s)" % told)
        ctx.step()
    ctx.equal(observe(first), seen, "lines handed out before")
    ctx.equal([r.id for r in net.get_routes()], [r.id for r in first], "lines of the network")
    ctx.state((n, a, b))
    ctx.validated()


NAMES = ["a{}b", "{0}", "{x", "%s", "100%", "b c", "", "ñandú", "a;b", "a,b", "1", "None", "\\n"]


def names(ctx):
    """modes with unusual names"""
    n = ctx.choose("n", [2, 4, 5])
    m = bus(name=ctx.choose("name", NAMES))
    g = city(n, shape="ids")
    net = TransportNetwork(g)
    seen = set()
    for c in CALLS:
        if (c[1] is not None and c[1] > n / 2) or c == ("radial", None, True, True):
            continue  # short radial lines have no stop to pass
        for r in answer(ctx, g, net, c, m, (m.name, c)):
            ctx.check(r.id not in seen, "two lines of one mode share an id", id=r.id, name=m.name)
            seen.add(r.id)
            net.add_route(r)
            ctx.check(net.get_route(r.id) is r, "a predefined line is not found by its id", id=r.id)
        ctx.step(c)
    ctx.state((n, m.name))
    ctx.validated()


HARNESSES = [("names", names), ("asked again", again), ("families", families), ("circular", circular), ("together", together), ("bad mode", bad_mode)]
BOUNDS = {"quick": "n in 0..10, 13, 20; every ordered pair of calls asked alternately nine times with several modes beside another network (n 3, 4, 6, 7); 3 city shapes, every family, short/express, every jump from -1 to n/2+2; all families of two modes together for 6 pairs of names; all families of a mode with 13 unusual names",
          "thorough": "n 0..14, 21, 30; two modes"}
