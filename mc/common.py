"""closed-system builders and boring reference models shared by the property modules"""
import math
import os

from engine import is_close

from sidermit.city import Graph, Demand
from sidermit.exceptions import SIDERMITException
from sidermit.publictransportsystem import (TransportMode, TransportModeManager, TransportNetwork, Passenger, Route,
                                            RouteType)
from sidermit.city import CBD, Periphery, Subcenter

REJECT = SIDERMITException


def scratch(name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "%d-%s" % (os.getpid(), name))


def stale(path):
    """a longer file of an earlier run is already there"""
    with open(path, "w", encoding="utf-8") as f:
        f.write("*vertices 1\nold;old,old,1\n" * 400)
    return path


# ---------------------------------------------------------------- cities
def ref_city(n, l, g, p, etha=None, etha_zone=None, angles=None, Gi=None, Hi=None):
    """list of (id, name, type, zone, x, y, radius, angle, width) in zone order, CBD first"""
    def pos(r, a):
        return r * math.cos(a * math.pi / 180), r * math.sin(a * math.pi / 180)
    out = [[0, "CBD", "CBD", 0, 0.0, 0.0, 0.0, 0.0, p]]
    for z in range(1, n + 1):
        a = angles[z - 1] if angles is not None else 360.0 / n * (z - 1)
        rp = l * (1 + g) * (Hi[z - 1] if Hi is not None else 1)
        rs = l * (Gi[z - 1] if Gi is not None else 1)
        xp, yp = pos(rp, a)
        xs, ys = pos(rs, a)
        out.append([2 * z - 1, "P_%d" % z, "P", z, xp, yp, rp, a, p])
        out.append([2 * z, "SC_%d" % z, "SC", z, xs, ys, rs, a, p])
    if etha is not None:
        a = out[2 * etha_zone][7]
        r = etha * out[2 * etha_zone][6]
        x, y = pos(r, a)
        out[0][4:8] = [x, y, r, a]
    return [tuple(o) for o in out]


def ref_edges(zone_ids, cbd_id):
    """zone_ids: [(p_id, sc_id)] -> set of directed edges"""
    e = set()
    n = len(zone_ids)
    for p, s in zone_ids:
        e |= {(p, s), (s, p), (s, cbd_id), (cbd_id, s)}
    if n >= 2:
        for i in range(n):
            a, b = zone_ids[i][1], zone_ids[(i + 1) % n][1]
            e |= {(a, b), (b, a)}
    return e


def kind(node):
    return "CBD" if isinstance(node, CBD) else "P" if isinstance(node, Periphery) else \
        "SC" if isinstance(node, Subcenter) else type(node).__name__


def view_city(g):
    """observable content of a city"""
    return {
        "n": g.get_n(),
        "nodes": [(int(o.id), o.name, kind(o), int(o.zone_id), float(o.x), float(o.y), float(o.width))
                  for o in g.get_nodes()],
        "zones": [(int(z.id), int(z.periphery.id), int(z.subcenter.id)) for z in g.get_zones()],
        "edges": sorted((int(e.node1.id), int(e.node2.id)) for e in g.get_edges()),
        "cbd": int(g.get_cbd().id) if g.get_cbd() is not None else None,
    }


def pajek(lines, count=None, head=True, tail="\n"):
    """lines: tuples of 7 fields"""
    t = "some header line\n\n" if head else ""
    t += "*vertices %d\n" % (len(lines) if count is None else count)
    return t + "\n".join(" ".join(str(f) for f in ln) for ln in lines) + tail


def check_topology(ctx, g, nodes, zones, cbd_id, extra_ids=(9999, -7)):
    """zones/edges/distances of a city agree with the node list: nodes = {id: (x, y)}"""
    want = ref_edges([(p, s) for _, p, s in zones], cbd_id)
    got = [(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()]
    ctx.check(len(got) == len(set(got)), "a street is listed twice", edges=got)
    ctx.equal(set(got), want, "streets of the city")
    ids = [e.id for e in g.get_edges()]
    ctx.check(len(ids) == len(set(ids)), "street ids are not unique", ids=ids)
    dist = g.get_edges_distance()
    gd = {(int(i), int(j)): d for i in list(dist) for j, d in list(dist[i].items())}
    ctx.equal(set(gd), want, "streets with a length")
    for (i, j), d in gd.items():
        ctx.close(d, math.dist(nodes[i], nodes[j]), "length of street %d-%d" % (i, j))
    for e in g.get_edges():
        for o in (e.node1, e.node2):
            ctx.check(is_close(o.x, nodes[o.id][0]) and is_close(o.y, nodes[o.id][1]),
                      "a street end is not where its node is", node=o.id)
    every = list(nodes) + list(extra_ids)
    for i in every:
        for j in every:
            ctx.check(bool(g.edge_exist(i, j)) == ((i, j) in want), "existence of street %s-%s" % (i, j))
    ctx.step()


# a menu of asymmetric cities (built through the public constructor)
ANGLES = {
    "none": lambda n: None,
    "offset": lambda n: [(20.0 + 360.0 / max(n, 1) * i) % 360 for i in range(n)],
    "uneven": lambda n: [round(350.0 * (i + 0.3) ** 1.4 / max(n, 1) ** 1.4, 3) for i in range(n)],
    "reversed": lambda n: [(355.0 - 360.0 / max(n, 1) * i) % 360 for i in range(n)],
    "edges": lambda n: [(360.0 if i == 0 else 300.0 / max(n, 1) * i) for i in range(n)],
}
GI = {
    "none": lambda n: None,
    "ones": lambda n: [1.0] * n,
    "ramp": lambda n: [0.6 + 0.35 * i for i in range(n)],
    "spike": lambda n: [2.5 if i == n - 1 else 0.8 for i in range(n)],
}
HI = {
    "none": lambda n: None,
    "ramp": lambda n: [1.0 + 0.3 * i for i in range(n)],
    "drop": lambda n: [1.9 - 0.2 * (i % 5) for i in range(n)],
}


def city(n=4, l=10.0, g=0.5, p=2.0, shape="sym"):
    """named shapes used by the network / assignment / optimisation harnesses"""
    if shape == "sym" or n == 0:
        return Graph.build_from_parameters(n, l, g, p)
    if shape == "ecc":
        return Graph.build_from_parameters(n, l, g, p, etha=0.4, etha_zone=n)
    if shape == "asym":
        return Graph.build_from_parameters(n, l, g, p, etha=0.3, etha_zone=1, angles=ANGLES["uneven"](n),
                                           Gi=GI["ramp"](n), Hi=HI["drop"](n))
    if shape == "ids":
        # an imported city: shuffled, non-contiguous ids that are part of one another
        nest = [12, 112, 1, 21, 2, 121, 11, 212, 122, 22, 221, 1121, 211, 1212, 2112, 111, 2121, 222, 1122, 1211, 2211]
        nest += range(3000, 3000 + 2 * max(0, n - 10))
        lines = [(nest[0], "Centro", 0.7, -0.4, "CBD", 0, p)]
        for z in range(1, n + 1):
            a = math.radians(10 + 340.0 / n * (z - 1))
            lines.append((nest[2 * z - 1], "sub%d" % z, (l - z * 0.3) * math.cos(a), (l - z * 0.3) * math.sin(a), "SC", z, p))
            lines.append((nest[2 * z], "per%d" % z, (1 + g) * l * math.cos(a + .05), (1 + g) * l * math.sin(a + .05), "P",
                          z, p))
        lines = lines[1:] + lines[:1]
        return Graph.build_from_content(pajek(lines))
    if shape == "twins":
        # an imported city whose places share one name and have different widths
        lines = [(7, "x", 0.2, 0.1, "CBD", 0, p)]
        for z in range(1, n + 1):
            a = math.radians(75 + 330.0 / n * (z - 1))
            lines.append((70 + z, "x", l * math.cos(a), l * math.sin(a), "SC", z, p * (1 + 0.3 * z)))
            lines.append((10 * z + 17, "x", (1 + g) * l * math.cos(a), (1 + g) * l * math.sin(a) + .3, "P", z, p / (1 + z)))
        return Graph.build_from_content(pajek(lines))
    raise KeyError(shape)
