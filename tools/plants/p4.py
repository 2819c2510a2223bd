import os, runpy
_p3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p3.py"))
globals().update({k: v for k, v in _p3.items() if k.isupper() and len(k) == 2})
HEAD = _p3["HEAD"]
G, N = "sidermit/city/graph.py", "sidermit/publictransportsystem/network.py"
OPT = HEAD + """
from sidermit.optimization.optimizer import Optimizer
"""
PIC = HEAD + """
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.patches import FancyArrowPatch
from matplotlib.collections import PathCollection
from matplotlib.colors import to_hex
from matplotlib.figure import Figure
last = {}


def shown(fig=None, *a, **k):
    fig = fig or plt.gcf()
    last.clear()
    arr, pts = {}, {}
    for ax in fig.axes:
        for q in ax.patches:
            if isinstance(q, FancyArrowPatch):
                (x, y), (s, t) = q._posA_posB
                arr.setdefault(to_hex(q.get_edgecolor()), set()).add((round(x, 3), round(y, 3), round(s, 3), round(t, 3)))
        for c in ax.collections:
            if isinstance(c, PathCollection):
                for x, y in c.get_offsets():
                    pts.setdefault(to_hex(c.get_facecolors()[0]), set()).add((round(float(x), 3), round(float(y), 3)))
    last.update(arr=arr, pts=pts, txt=sorted(t.get_text() for ax in fig.axes for t in ax.texts))


Figure.savefig = shown
plt.show = lambda *a, **k: shown()
LIME, AQUA, YELLOW = to_hex('lime'), to_hex('aqua'), to_hex('yellow')
"""

BUGS = [
    # ---------------------------------------------------------------- C24
    dict(id="C24-strategy-rounded", property="C24",
         needs="asking for the text of a strategy twice, or using the strategy after its text was asked for",
         breaks="describing a strategy rounds the costs it holds",
         edits=[(HP, "            line_frequency = frequencies[node]\n", "            line_frequency = frequencies[node]\n            label[node] = round(label[node], 4)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(tat=0.3)
r = Run(g, net(g, line("A", m, [1, 2, 0, 4, 3])), {(1, 3): 10}, dict(A=7.3))
c = {n.graph_node.id: n for n in r.eg.get_extended_graph_nodes()}
s, l, f = r.hp.build_hyperpath_graph(c[1], c[3])
a = dict(l)
r.hp.string_hyperpath_graph(s, l, f)
assert dict(l) == a
"""),
    dict(id="C24-paths-other-stop", property="C24",
         needs="an origin with stops of two modes",
         breaks="the summary counts the paths of all stops of the origin for every stop",
         edits=[(HP, "                        len(hyperpaths[origin][\n                                destination][stop]), len(successors",
                 "                        sum(len(p) for p in hyperpaths[origin][\n                            destination].values()), len(successors")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
r = Run(g, net(g, line("A", mode(tat=0.3), [1, 2, 0]), line("B", mode("metro"), [1, 2, 0])), {(1, 0): 10}, dict(A=7.3, B=4))
t = Hyperpath.string_all_hyperpaths(r.hs, r.ls, r.ss, r.vs)
import re
assert re.findall(r"elemental paths: (\\d+),", t) == ["1", "1"], t
"""),
    dict(id="C24-idle-frequency", property="C24",
         needs="a result with a line that is left without service",
         breaks="lines without service are left out of the summary of the optimisation",
         edits=[(OP, "        for route_id in f:\n            line += \"\\n\\t{}: {:.2f}\".format(route_id, f[route_id])\n",
                 "        for route_id in f:\n            if f[route_id] >= 0.01:\n                line += \"\\n\\t{}: {:.2f}\".format(route_id, f[route_id])\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
o = Optimizer(g, od(g, {(1, 0): 5}), Passenger.get_default_passenger(), net(g, line("A", m, [1, 2, 0]), line("B", m, [3, 4])), None)
t = o.string_network_optimization(([7.0, 0.0], True, 1, "ok", 0.0, 5.0))
assert "B: 0.00" in t, t
"""),
    dict(id="C24-previous-time", property="C24",
         needs="an express line that shares its first stop with the stop before in another direction: the time printed is that of the first link into the place",
         breaks="the time from the previous stop is that of any riding link between the same two places",
         edits=[(EG, "                            if edge.nodei == route_node.prev_route_node and edge.nodej == route_node:\n",
                 "                            if edge.type == ExtendedEdgesType.ROUTE and edge.nodei.stop_node == route_node.prev_route_node.stop_node and edge.nodej.stop_node == stop_node:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
m = mode()
# the second line goes from 1 to 0 around the ring
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [1, 2, 4, 0], stops=[1, 0]), line("C", m, [1, 2, 0], stops=[1, 0]))
eg = ExtendedGraph(g, n.get_routes(), 16, freq(dict(A=1, B=1, C=1)))
t = str(eg)
want = sorted(x.t for x in eg.get_extended_graph_edges() if x.type == T.ROUTE)
import re
got = sorted(float(x) for x in re.findall(r"Time to previous stop: (\\S+) \\[hrs\\]", t))
assert [x for x in got if x] == want, (got, want)
"""),
    dict(id="C24-alighting-stops", property="C24",
         needs="printing twice, or using the boardings after printing: a stop where passengers only alight",
         breaks="printing removes the stops where nobody boards from the boardings",
         edits=[(AS, "        line = \"\\nBoarding and Alighting information:\"\n",
                 "        line = \"\\nBoarding and Alighting information:\"\n        for route_id in v:\n            for direction in v[route_id]:\n                for stop_node in list(v[route_id][direction]):\n                    if v[route_id][direction][stop_node] < 0.005:\n                        del v[route_id][direction][stop_node]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(tat=0.3)
r = Run(g, net(g, line("A", m, [1, 2, 0, 4, 3])), {(1, 3): 10, (1, 0): 0.01}, dict(A=7.3))
a = sum(sum(x.values()) for x in r.v["A"].values())
Assignment.str_boarding_alighting(r.z, r.v)
near(sum(sum(x.values()) for x in r.v["A"].values()), a)
"""),
    # ---------------------------------------------------------------- C25
    dict(id="C25-id-suffix", property="C25",
         needs="place ids one of which ends with another (1 and 11), the shorter one listed first",
         breaks="stops are matched by the end of the id",
         edits=[(EG, "                for s in stop_nodes:\n                    if s.mode == mode and str(s.city_node.graph_node.id) == str(stop):\n                        stop_node = s\n                        break\n                route_node = RouteNode(len(route_nodes) + len(nodes), route, \"R\"",
                 "                for s in stop_nodes:\n                    if s.mode == mode and str(stop).endswith(str(s.city_node.graph_node.id)):\n                        stop_node = s\n                        break\n                route_node = RouteNode(len(route_nodes) + len(nodes), route, \"R\"")],
         demo=HEAD + """
g = Graph.build_from_parameters(6, 10, 0.5, 2)
m = mode()
# zone 6 has places 11 and 12; 1 and 2 are zone 1
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [11, 12, 0]))
eg = ExtendedGraph(g, n.get_routes(), 16, freq(dict(A=1, B=1)))
got = sorted(e[1][2] for e in edges(eg) if e[4] == "BOARDING" and e[1][0] == "B")
assert got == [0, 11, 12, 12], got
"""),
    dict(id="C25-sorted-lines", property="C25",
         needs="lines that are not added in alphabetical order of their ids, and frequencies that differ",
         breaks="the optimiser orders the lines by id, the constraints and results by insertion",
         edits=[(OP, "        else:\n            for route in self.network_obj.get_routes():\n                fini[route.id] = f[route.id]\n",
                 "        else:\n            for route in sorted(self.network_obj.get_routes(), key=lambda r: str(r.id)):\n                fini[route.id] = f[route.id]\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
a, b = line("Z", m, [1, 2, 0]), line("B", m, [2, 0])
d = od(g, {(1, 0): 50, (2, 0): 9})
o = Optimizer(g, d, Passenger.get_default_passenger(), net(g, a, b), freq(dict(Z=10, B=20)))
f = o.fopt_to_f([5.0, 30.0])
assert f["Z"] == 5.0 and f["B"] == 30.0, dict(f)
"""),
    dict(id="C25-outbound-street", property="C25",
         needs="a line whose outbound direction is listed from the other end and whose two directions use different streets",
         breaks="streets used by the return direction only are not counted when the line ends in the centre",
         edits=[(IC, "                    for i in range(len(nodes_r) - 1):\n", "                    for i in range(len(nodes_r) - 1 if route.nodes_sequence_i[-1:] != [0] else 0):\n")],
         demo=OPT + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
m = mode(c2=3.0)
ic = InfrastructureCost()
a = net(g, line("A", m, [1, 2, 0], back=[0, 4, 2, 1]))
b = net(g, line("A", m, [0, 4, 2, 1], back=[1, 2, 0]))
f = freq(dict(A=5))
near(ic.get_infrastruture_cost(g, a, f), ic.get_infrastruture_cost(g, b, f))
"""),
    dict(id="C25-walking-metres", property="C25",
         needs="a city described in another unit of length (or a wide one)",
         breaks="the part of a place a stop serves is rounded to millimetres of the unit",
         edits=[(OP, "        self.vp = self.passenger_obj.va\n", "        self.vp = min(self.passenger_obj.va, 1000)\n")],
         demo=OPT + """
def run(k):
    g = Graph.build_from_parameters(2, 10 * k, 0.5, 2 * k)
    a, b = mode(v=20.0 * k, tat=0.3), mode("metro", v=24.0 * k, tat=0.5)
    p = Passenger(4 * k, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16)
    o = Optimizer(g, od(g, {(1, 0): 50}), p, net(g, line("A", a, [1, 2, 0]), line("B", b, [1, 2, 0])), freq(dict(A=10, B=10)))
    return [x for s in o.assignment.values() for t in s.values() for x in t.values()]
for x, y in zip(sorted(run(1)), sorted(run(1000.0))):
    near(x, y)
"""),
    dict(id="C25-mode-prefix", property="C25",
         needs="two modes one of whose names is the beginning of the other, serving different places",
         breaks="modes are told apart by the beginning of their names only",
         edits=[(CO, "PLACEHOLDER", "")],
         demo=HEAD),
    # ---------------------------------------------------------------- C26
    dict(id="C26-return-stops", property="C26",
         needs="a picture of the return direction only of a line whose directions stop at different places; the last stop",
         breaks="the last stop of the return direction is not shown",
         edits=[(N, "                for i in range(len(stop_r)):\n", "                for i in range(len(stop_r) - 1):\n")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
n.plot("x", None, "R")
assert len(last["pts"][YELLOW]) == 3, last
"""),
    dict(id="C26-empty-selection", property="C26",
         needs="an empty selection of lines",
         breaks="no line selected draws all lines",
         edits=[(N, "        if list_routes is None:\n            list_routes = self.__routes_id\n", "        if not list_routes:\n            list_routes = self.__routes_id\n")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
n.plot("x", [])
assert not last["arr"].get(LIME), last
"""),
    dict(id="C26-alias", property="C26",
         needs="a picture of all lines, then a refused one or another picture of the same network",
         breaks="lines drawn are removed from the network's list when a direction is given",
         edits=[(N, "        for route_id in list_routes:\n            if route_id not in self.__routes_id:\n                raise RouteIdNotFoundException(\"route_id does not found\")\n            else:\n                ind",
                 "        for route_id in list_routes:\n            if route_id not in self.__routes_id and list_routes[0] == route_id:\n                raise RouteIdNotFoundException(\"route_id does not found\")\n            elif route_id in self.__routes_id:\n                ind")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
assert raises(n.plot, "x", ["A", "B"]) == "RouteIdNotFoundException"
"""),
    dict(id="C26-one-zone", property="C26",
         needs="a city with at least ten zones",
         breaks="the centre is drawn where the first subcentre of two digits is",
         edits=[(G, "            edges.append((edge.node1.id, edge.node2.id))\n            if not position",
                 "            if edge.id < 48:\n                edges.append((edge.node1.id, edge.node2.id))\n            if not position")],
         demo=PIC + """
g = Graph.build_from_parameters(11, 10, 0.5, 2)
g.plot("x")
assert sum(len(x) for x in last["arr"].values()) == 66, sum(len(x) for x in last["arr"].values())
"""),
    dict(id="C26-return-colour", property="C26",
         needs="both directions of a line whose directions use different streets",
         breaks="the return direction of several lines shows only the last one",
         edits=[(N, "                for i in range(len(nodes_r) - 1):\n                    id1 = nodes_r[i]\n", "                edges_r = edges_r if len(nodes_i) == len(nodes_r) else []\n                for i in range(len(nodes_r) - 1):\n                    id1 = nodes_r[i]\n")],
         demo=PIC + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]), line("B", mode("metro"), [1, 2, 0], back=[0, 4, 2, 1]))
n.plot("x")
assert len(last["arr"][AQUA]) == 5 - 1, last
"""),
    dict(id="C26-path-links", property="C26",
         needs="a strategy with several paths from one stop",
         breaks="the links of the second and later paths of a stop are joined to the end of the first one",
         edits=[(HP, "            for path in hyperpaths_od[stop]:\n                prev_node = None\n                for node in path:\n                    if isinstance(node, CityNode):\n                        city_nodes",
                 "            prev_node = None\n            for path in hyperpaths_od[stop]:\n                for node in path:\n                    if isinstance(node, CityNode):\n                        city_nodes")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
r = Run(g, net(g, line("A", m, [1, 2, 0]), line("B", m, [1, 2, 0])), {(1, 0): 10}, dict(A=7.3, B=4))
for o in r.hs:
    for d in r.hs[o]:
        Hyperpath.plot(r.hs[o][d])
n = sum(len(x) for x in last["arr"].values())
assert n == 1 + 2 + 2 * 2 + 2 + 1, n
"""),
    # ---------------------------------------------------------------- C27
    dict(id="C27-rounded-frequency", property="C27",
         needs="frequencies with more than one decimal: the solver's numerical derivatives vanish",
         breaks="the cost is that of frequencies rounded to a hundredth, so the solver stops where it starts",
         edits=[(OP, "        f = self.fopt_to_f(fopt)\n\n        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,\n                                                                           self.assignment, f)\n        k = self.get_k",
                 "        f = self.fopt_to_f([round(x, 2) for x in fopt])\n\n        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,\n                                                                           self.assignment, f)\n        k = self.get_k")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(tat=0.3), [1, 2, 0]))
p = Passenger.get_default_passenger()
d = od(g, {(1, 0): 50})
o = Optimizer.network_optimization(g, d, p, n, None, 0.01, 2)
x = o.get_optimization_value()[0]
q = Optimizer(g, d, p, n, None)
best = min(q.VRC([y / 10]) for y in range(10, 400))
assert q.VRC(x) <= best * 1.002, (x, q.VRC(x), best)
"""),
    dict(id="C27-few-steps", property="C27",
         needs="a system whose optimum is far from the initial frequencies",
         breaks="the solver stops as soon as the frequencies move by less than half a vehicle",
         edits=[(OP, "constraints=nonlin_con, tol=0.01, bounds=bounds)", "constraints=nonlin_con, tol=0.5, bounds=bounds,\n                       options={'initial_tr_radius': 0.6})")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
p = Passenger.get_default_passenger()
for y in (50, 3000, 8000):
    n = net(g, line("A", mode(tat=0.3, kmax=25), [1, 2, 0]))
    d = od(g, {(1, 0): y / 10})
    o = Optimizer.network_optimization(g, d, p, n, None, 0.01, 2)
    x = o.get_optimization_value()[0]
    q = Optimizer(g, d, p, n, None)
    best = min(q.VRC([z / 10]) for z in range(3, 1400) if max(q.get_constrains([z / 10])) <= 0)
    assert q.VRC(x) <= best * 1.002, (x, q.VRC(x), best)
"""),
    dict(id="C27-one-seat", property="C27",
         needs="a demand for which the capacity of the vehicles binds",
         breaks="vehicles may be overfull by one percent of a stop's limit",
         edits=[(OP, "        lb = [-1 * np.inf] * self.len_constrains\n        ub = [0] * self.len_constrains\n", "        lb = [-1 * np.inf] * self.len_constrains\n        ub = [0.05] * self.len_constrains\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
p = Passenger.get_default_passenger()
n = net(g, line("A", mode(tat=0.3, kmax=25), [1, 2, 0]))
d = od(g, {(1, 0): 600})
o = Optimizer.network_optimization(g, d, p, n, None, 0.01, 2)
x = o.get_optimization_value()[0]
assert max(Optimizer(g, d, p, n, None).get_constrains(x)) <= 0.001
"""),
]
BUGS = [b for b in BUGS if b["id"] != "C25-mode-prefix"]
