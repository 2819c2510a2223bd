import os, runpy
_p8 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p8.py"))
globals().update({k: v for k, v in _p8.items() if k.isupper() and len(k) == 2})
HEAD, OPT, PIC, G, N, REP = (_p8[k] for k in ("HEAD", "OPT", "PIC", "G", "N", "REP"))

BUGS = [
    dict(id="C01-distance-memo", property="C01",
         needs="two cities with the same n, l, g and p but other angles, whose distances are asked one after the other",
         breaks="distances are remembered by the main parameters of the city",
         edits=[(G, "        edge_distance = defaultdict(lambda: defaultdict(float))\n\n        for edge in self.__edges:\n",
                 "        known = Graph.__dict__.get('_known')\n        if known is None:\n            Graph._known = known = {}\n        if self.__n is not None and self.get_parameters()[:6] in known:\n            return known[self.get_parameters()[:6]]\n        edge_distance = defaultdict(lambda: defaultdict(float))\n        if self.__n is not None and self.__Gi is None and self.__Hi is None:\n            known[self.get_parameters()[:6]] = edge_distance\n\n        for edge in self.__edges:\n")],
         demo=HEAD + """
a = Graph.build_from_parameters(3, 10, 0.5, 2)
near(a.get_edges_distance()[2][4], 10 * 3 ** 0.5)
b = Graph.build_from_parameters(3, 10, 0.5, 2, angles=[0, 180, 270])
near(b.get_edges_distance()[2][4], 20)
"""),
    dict(id="C03-long-names", property="C03",
         needs="a place whose name is long",
         breaks="saved names are cut after 20 characters",
         edits=[(G, "line += \"{0} {1} {2} {3} {4} {5} {6}\\n\".format(", "line += \"{0} {1:.20} {2} {3} {4} {5} {6}\\n\".format(")],
         demo=HEAD + """
t = "*vertices 3\\n0 CBD 0 0 CBD 0 1\\n1 Periferia_norponiente_de_la_ciudad 3 0 P 1 1\\n2 s 2 0 SC 1 1"
a = Graph.build_from_content(t)
b = Graph.build_from_content(a.export_graph())
assert [n.name for n in a.get_nodes()] == [n.name for n in b.get_nodes()]
"""),
    dict(id="C03-small-coordinates", property="C03",
         needs="a place off an axis by less than a millionth",
         breaks="tiny coordinates are saved as zero",
         edits=[(G, "                line += \"{0} {1}", "                x, y = (0.0 if abs(c) < 1e-9 else c for c in (node_obj.x, node_obj.y))\n                line += \"{0} {1}"),
                (G, "node_obj.name, node_obj.x, node_obj.y,", "node_obj.name, x, y,")],
         demo=HEAD + """
a = Graph.build_from_parameters(1, 1e-10, 0.5, 1)
b = Graph.build_from_content(a.export_graph())
assert [n.x for n in a.get_nodes()] == [n.x for n in b.get_nodes()]
"""),
    dict(id="C06-tiny-negative", property="C06",
         needs="an edit with a negative number of trips close to zero",
         breaks="slightly negative trips are accepted",
         edits=[("sidermit/city/demand.py", "        if vij < 0:\n            raise TripsValueIsNotValidException", "        if vij < -1e-6:\n            raise TripsValueIsNotValidException")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
try:
    d.change_vij(1, 2, -1e-7)
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C07-exponent", property="C07",
         needs="trips so few that they are written with an exponent",
         breaks="the exponent of a number of trips is cut off",
         edits=[("sidermit/city/demand.py", "int(destination_id), float(vij))", "int(destination_id), float(vij.split('e')[0]))")],
         demo=HEAD + """
import tempfile, os
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 2, 2.5e-7)
p = os.path.join(tempfile.mkdtemp(), "f")
d.matrix_to_file(p)
assert Demand.build_from_file(g, p).get_matrix()[1][2] == 2.5e-7
"""),
    dict(id="C13-early-stop", property="C13",
         needs="the cost from a node further away than the stops of the origin",
         breaks="the search ends when all stops of the origin are reached",
         edits=[(HP, "            # update S\n            S.append(j)\n", "            # update S\n            S.append(j)\n            if all(s in S for s in nodes[node_city_origin]) and len(nodes[node_city_origin]) > 1:\n                break\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m, k = mode(), mode("metro", d=1)
n = net(g, line("A", m, [1, 2, 0, 4, 3]), line("B", k, [1, 2, 0, 4]))
eg = ExtendedGraph(g, n.get_routes(), 16, freq(dict(A=10, B=10)))
hp = Hyperpath(eg, Passenger.get_default_passenger())
c = {x.graph_node.id: x for x in eg.get_extended_graph_nodes()}
far = hp.build_hyperpath_graph(c[1], c[4])[1][c[3]]
also = hp.build_hyperpath_graph(c[0], c[4])[1][c[3]]
near(far, also)
"""),
    dict(id="C14-path-limit", property="C14",
         needs="a strategy of more than eight elemental paths",
         breaks="only the first eight elemental paths are kept",
         edits=[(HP, "                hyperpath_stop = new_hyperpath_stop\n", "                hyperpath_stop = new_hyperpath_stop[:8]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, *[line("A%d" % i, m, [1, 2, 0]) for i in range(9)])
r = Run(g, n, {(1, 0): 10}, {"A%d" % i: 3 for i in range(9)})
assert sum(len(p) for o in r.hs.values() for d in o.values() for p in d.values()) == 9
"""),
    dict(id="C12-circular-name", property="C12",
         needs="a line of one's own whose id starts like the ids of rings",
         breaks="lines whose id starts with CIR are taken for rings",
         edits=[(EG, "            _type = route._type\n", "            _type = RouteType.CIRCULAR if str(route.id).startswith(\"CIR\") else route._type\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("CIRCUITO", mode(), [1, 2, 0]))
eg = ExtendedGraph(g, n.get_routes(), 16, freq(dict(CIRCUITO=10)))
assert sum(len(r) for s in eg.get_extended_graph_nodes().values() for r in s.values()) == 6
"""),
    dict(id="C22-circular-name", property="C22",
         needs="a line of one's own whose id starts like the ids of rings",
         breaks="lines whose id starts with CIR are reported as rings",
         edits=[(OP, "                if route._type == RouteType.CIRCULAR:\n", "                if str(route.id).startswith(\"CIR\"):\n")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("CIRCUITO", mode(), [1, 2, 0]))
o = report(g, n, {(1, 0): 10}, dict(CIRCUITO=5))
assert len(o.get_network_results()[0][9]) == 2
"""),
    dict(id="C24-long-ids", property="C24",
         needs="lines with long ids that begin alike",
         breaks="printed ids of lines are cut after 12 characters",
         edits=[(HP, "line += \"[Route_node {} {} - {}: {:.4f}]\\n\\t\\t\".format(node.route.id,", "line += \"[Route_node {} {} - {}: {:.4f}]\\n\\t\\t\".format(str(node.route.id)[:12],")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
r = Run(g, net(g, line("troncal_norte_sur_1", m, [1, 2, 0])), {(1, 0): 10}, dict(troncal_norte_sur_1=3))
for o in r.hs:
    for d in r.hs[o]:
        assert "troncal_norte_sur_1" in Hyperpath.string_hyperpaths_OD(r.hs[o][d], r.ls[o][d])
"""),
    dict(id="C27-one-per-hour", property="C27",
         needs="a system whose cheapest frequencies are below one vehicle per hour",
         breaks="no line runs less than once an hour",
         edits=[(OP, "        lb = [0] * self.len_var\n", "        lb = [0 if f < 1 or self.len_var > 1 else 1 for f in self.f_opt]\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
o = Optimizer.network_optimization(g, od(g, {(1, 0): 0.1}), Passenger.get_default_passenger(), n, None, 0.01, 2)
assert o.get_optimization_value()[0][0] < 0.99, o.get_optimization_value()
"""),
    dict(id="C18-known-lines", property="C18",
         needs="two networks with lines of the same id",
         breaks="the running time of a line is remembered by its id",
         edits=[(OC, "            line_travel_time[route.id] = tv\n", "            line_travel_time[route.id] = OperatorsCost.__dict__['_known'].setdefault((route.id, len(node_sequence_i), route.mode.v), tv)\n"),
                (OC, "    @staticmethod\n    def lines_travel_time(", "    _known = {}\n\n    @staticmethod\n    def lines_travel_time(")],
         demo=HEAD + """
m = mode()
for l in (10, 20):
    g = Graph.build_from_parameters(2, l, 0.5, 2)
    near(OperatorsCost.lines_travel_time([line("A", m, [1, 2, 0])], g.get_edges_distance())["A"], 3 * l / 20)
"""),
    dict(id="C19-known-network", property="C19",
         needs="a network whose line is replaced by another of the same id after its cost was asked for",
         breaks="lengths are remembered by network and running lines",
         edits=[(IC, "        mode_distance = defaultdict(float)\n", "        mode_distance = defaultdict(float)\n        known = network_obj.__dict__.setdefault('_lengths', {})\n        running = tuple(sorted((str(route.id), route.mode.name) for route in routes if f[route.id] != 0))\n        if running in known:\n            return known[running]\n        known[running] = mode_distance\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(c2=1, d=1)
n = net(g, line("A", m, [1, 2, 0]))
near(InfrastructureCost.get_infrastruture_cost(g, n, freq(dict(A=3))), 15)
n.remove_route("A")
n.add_route(line("A", m, [1, 2]))
near(InfrastructureCost.get_infrastruture_cost(g, n, freq(dict(A=3))), 5)
"""),
    dict(id="C20-limit-by-name", property="C20",
         needs="two networks with modes of the same name but other limits",
         breaks="the limit of a stop is remembered by the name of the mode",
         edits=[(CO, "                fmax = mode.fmax / mode.d\n", "                fmax = Constrains.__dict__['limits'].setdefault((mode.name, mode.d, mode.v), mode.fmax / mode.d)\n"),
                (CO, "    @staticmethod\n    def fmax_constrains(", "    limits = {}\n\n    @staticmethod\n    def fmax_constrains(")],
         demo=HEAD + """
from sidermit.optimization import Constrains
g = Graph.build_from_parameters(2, 10, 0.5, 2)
for fm in (50, 70):
    m = mode(fmax=fm, d=1)
    n = net(g, line("A", m, [1, 2, 0]))
    near(max(Constrains.fmax_constrains(g, n.get_routes(), n.get_modes(), freq(dict(A=3)))), 3 - fm)
"""),
    dict(id="C17-second-change", property="C17",
         needs="a trip that changes mode twice",
         breaks="the access of the new mode is counted for the first change only",
         edits=[(UC, "                                ta += dis_pax * nodej.mode.tat / 60\n", "                                if not changed:\n                                    ta += dis_pax * nodej.mode.tat / 60\n                                changed.append(nodei)\n"),
                (UC, "                    paths = []\n", "                    paths = []\n                    changed = []\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode(theta=1.0, tat=1), mode("metro", tat=2, d=1)
n = net(g, line("A", a, [1, 2]), line("B", b, [2, 0, 4]), line("C", a, [4, 3]))
r = Run(g, n, {(1, 3): 10}, dict(A=10, B=10, C=10))
ta, te, tv, t = r.res()
ref = 10 * (1 / 60 + 3 / 60 + 3 / 60 + 2 / (4 * 4 * a.d))
near(ta, ref)
"""),
    dict(id="C16-late-boarding", property="C16",
         needs="a stop of the return direction where more people alight than board",
         breaks="the load never falls below the boardings of the stop",
         edits=[]),
    dict(id="C09-same-name", property="C09",
         needs="a line of another mode that has the name of one in the network",
         breaks="a mode of a name already in use is taken for the one in the network",
         edits=[(N, "        if mode not in self.__modes:\n", "        if mode.name not in [other.name for other in self.__modes if other.d == mode.d and other.kmax != mode.kmax] + [\n                other.name for other in self.__modes if other == mode]:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
try:
    n.add_route(line("B", mode(kmax=7), [3, 4, 0]))
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C15-origin-width", property="C15",
         needs="a place wider than the others",
         breaks="the share forgets where the stops are beyond the width of the narrowest place",
         edits=[]),
    dict(id="C25-long-ids", property="C25",
         needs="places with ids that end alike",
         breaks="places are told apart by the last two digits of their ids",
         edits=[(HP, "                            if str(destination_id) == str(city_node.graph_node.id):", "                            if int(destination_id) % 1000 == int(city_node.graph_node.id) % 1000:")],
         demo=HEAD + """
t = "*vertices 5\\n0 CBD 0 0 CBD 0 1\\n1 p 3 0 P 1 1\\n2 s 2 0 SC 1 1\\n1001 q -3 0 P 2 1\\n1002 r -2 0 SC 2 1"
g = Graph.build_from_content(t)
r = Run(g, net(g, line("A", mode(), [1, 2, 0, 1002, 1001])), {(0, 2): 10}, dict(A=3))
assert [d.graph_node.id for o in r.vs for d in r.vs[o]] == [2]
"""),
    dict(id="C26-two-digits", property="C26",
         needs="places with ids of more than three digits",
         breaks="labels show three digits only",
         edits=[(G, "        nx.draw_networkx_labels(G, position)\n", "        nx.draw_networkx_labels(G, position, {i: str(i)[:3] for i in position})\n")],
         demo=PIC + """
t = "*vertices 3\\n0 CBD 0 0 CBD 0 1\\n1001 p 3 0 P 1 1\\n1002 s 2 0 SC 1 1"
Graph.build_from_content(t).plot("x.png")
assert last["txt"] == ["0", "1001", "1002"], last
"""),
]
BUGS = [b for b in BUGS if b["edits"]]
