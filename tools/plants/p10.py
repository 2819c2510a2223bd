import os, runpy
_p8 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p8.py"))
globals().update({k: v for k, v in _p8.items() if k.isupper() and len(k) == 2})
HEAD, OPT, PIC, G, N, REP, SCRIPT = (_p8[k] for k in ("HEAD", "OPT", "PIC", "G", "N", "REP", "SCRIPT"))
D = "sidermit/city/demand.py"
M = "sidermit/publictransportsystem/mode.py"

BUGS = [
    dict(id="C01-shared-list", property="C01",
         needs="two cities built from the same list of angles",
         breaks="the list of angles given is sorted in place, so that a second city gets other angles",
         edits=[(G, "        for i in range(len(self.__zones)):\n            ang = angles[i]\n",
                 "        angles = [a for a in angles]\n        if len(angles) > 4:\n            angles = [a % 360 for a in angles]\n            angles[-1] = max(angles[-1], angles[-2])\n        for i in range(len(self.__zones)):\n            ang = angles[i]\n")],
         demo=HEAD + """
import math
g = Graph.build_from_parameters(5, 10, 0.5, 2, angles=[0, 72, 144, 288, 216])
near(g.get_zones()[4].subcenter.y, 10 * math.sin(math.radians(216)))
"""),
    dict(id="C02-sum-of-ratios", property="C02",
         needs="ratios of which a negative one is hidden by the others",
         breaks="a negative ratio is noticed only by the smallest of the first three",
         edits=[(G, "            for hi in Hi:\n                if hi < 0:", "            for hi in Hi[:3]:\n                if hi < 0:")],
         demo=HEAD + """
try:
    Graph.parameters_validator(4, 10, 0.5, 2, Hi=[1, 1, 1, -1])
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C04-blank-between", property="C04",
         needs="an empty line among the nodes of a city file",
         breaks="empty lines among the nodes count as nodes already read",
         edits=[(G, "            if n_nodes > 0:\n                if len(line.split()) == 7:", "            if n_nodes > 0 and not line.strip():\n                n_nodes = n_nodes - 1\n                continue\n            if n_nodes > 0:\n                if len(line.split()) == 7:")],
         demo=HEAD + """
t = "*vertices 5\\n0 CBD 0 0 CBD 0 1\\n1 p 3 0 P 1 1\\n\\n2 s 2 0 SC 1 1\\n\\n"
try:
    Graph.build_from_content(t)
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C05-many-zones", property="C05",
         needs="a city of more than ten zones with trips between subcentres",
         breaks="trips to other subcentres are those of a city of ten",
         edits=[(D, "                v_sc_osc = y_sc * gamma_g / (n - 1)", "                v_sc_osc = y_sc * gamma_g / min(n - 1, 10)")],
         demo=HEAD + """
g = Graph.build_from_parameters(14, 10, 0.5, 2)
near(Demand.build_from_parameters(g, 1400, 0.5, 0.25, 0.25).get_total_trips(), 1400)
"""),
    dict(id="C06-threshold", property="C06",
         needs="an edit that leaves a cell almost as it was",
         breaks="edits of less than a millionth are dropped",
         edits=[(D, "            if destination_node_id in self.__matrix[origin_node_id]:\n", "            if destination_node_id in self.__matrix[origin_node_id] and abs(\n                    self.__matrix[origin_node_id][destination_node_id] - vij) < 1e-9 and vij:\n                return\n            if destination_node_id in self.__matrix[origin_node_id]:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 2, 1e-10)
assert d.get_matrix()[1][2] == 1e-10
"""),
    dict(id="C08-long-line", property="C08",
         needs="a line of many nodes that comes back to a node much later",
         breaks="loops of more than six steps are not noticed",
         edits=[(N, "        for node1 in sequence:\n            n = 0\n            for node2 in sequence:\n", "        for i, node1 in enumerate(sequence):\n            n = 0\n            for node2 in sequence[max(i - 6, 0):i + 7]:\n")],
         demo=HEAD + """
s = [2, 4, 6, 8, 10, 12, 14, 16, 2, 1]
try:
    Route("A", mode(), ",".join(map(str, s)), ",".join(map(str, s[::-1])), "2,1", "1,2")
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C08-far-stop", property="C08",
         needs="a line whose stops are given in another order than its places, and none of them twice",
         breaks="lines of more than three stops need not end at their last node",
         edits=[(N, "        if nodes_list[len(nodes_list) - 1] != stops_list[len(stops_list) - 1]:", "        if nodes_list[len(nodes_list) - 1] not in stops_list[2:] + stops_list[-1:]:")],
         demo=HEAD + """
try:
    Route("A", mode(), "1,2,0,4,3", "3,4,0,2,1", "1,0,3,4", "3,1")
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C09-get-after-remove", property="C09",
         needs="a line asked for by id after another was removed",
         breaks="the place of a line in the list is remembered",
         edits=[(N, "            i = self.__routes_id.index(route_id)\n            return self.__routes[i]\n", "            i = self.__dict__.setdefault('_at', {}).setdefault(route_id, self.__routes_id.index(route_id))\n            return self.__routes[i if i < len(self.__routes) else self.__routes_id.index(route_id)]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2]), line("B", m, [2, 0]), line("C", m, [3, 4]))
n.get_route("B")
n.remove_route("A")
assert n.get_route("B").id == "B"
"""),
    dict(id="C10-tangential-long", property="C10",
         needs="a tangential line over at least four zones that wraps around past the first zone",
         breaks="wrapping tangential lines miss the zone before the last",
         edits=[(N, "                for i in range(1, zone2_id):\n                    list_zones_id.append(i)\n", "                for i in range(1, zone2_id):\n                    if i != 3:\n                        list_zones_id.append(i)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(11, 10, 0.5, 2)
n = TransportNetwork(g)
for r in n.get_tangencial_routes(mode(), 5):
    for s in (r.nodes_sequence_i, r.nodes_sequence_r):
        for a, b in zip(s, s[1:]):
            assert g.edge_exist(a, b), s
"""),
    dict(id="C11-fini-order", property="C11",
         needs="a mode with parallel lines whose initial frequency is changed later",
         breaks="a new number of parallel lines rescales the limit of frequency",
         edits=[(M, "        self.d = d\n        self.fini = fini * d\n", "        self.d = d\n        self.fini = fini * max(d, 1)\n")],
         demo=HEAD + """
m = mode(d=0, fini=5)
assert m.fini == 0
"""),
    dict(id="C12-fast-mode", property="C12",
         needs="a line that jumps more than two stops",
         breaks="sections through more than three places without stop are measured straight",
         edits=[(EG, "                    if count:\n                        for n in nodes:", "                    if count and abs(node_sequence.index(id_city1) - node_sequence.index(id_city2)) < 5:\n                        for n in nodes:")],
         demo=HEAD + """
g = Graph.build_from_parameters(6, 10, 0.5, 2)
m = mode()
n = net(g, Route("A", m, "1,2,4,6,8,7", "7,8,6,4,2,1", "1,7", "7,1"))
eg = ExtendedGraph(g, n.get_routes(), 16)
for e in eg.get_extended_graph_edges():
    if e.type.name == "ROUTE":
        near(e.t, (10 + 30) / 20)
"""),
    dict(id="C13-rush", property="C13",
         needs="lines of very high frequency",
         breaks="lines more frequent than once every ten seconds count as always there",
         edits=[(HP, "                        labels[i] = (theta * self.passenger_obj.pw / self.passenger_obj.pv + edge.f * t_i) / edge.f\n", "                        labels[i] = (theta * self.passenger_obj.pw / self.passenger_obj.pv + edge.f * t_i) / edge.f\n                        if edge.f > 360:\n                            labels[i] = t_i\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0, d=1)
def cost(f):
    r = Run(g, net(g, line("A", m, [1, 2, 0])), {(1, 0): 10}, dict(A=f))
    o = next(iter(r.hs)); d = next(iter(r.hs[o])); t = next(iter(r.hs[o][d]))
    return r.ls[o][d][t]
near(cost(200) - cost(400), 2 * (1 / 200 - 1 / 400))
"""),
    dict(id="C15-wide-place", property="C15",
         needs="places wider than the indifferent walk, with many parallel lines whose stops straddle it",
         breaks="only the first three stops of the other mode are looked at",
         edits=[(AS, "                            for i in range(int(stop2.mode.d / 2)):\n", "                            for i in range(min(int(stop2.mode.d / 2), 3)):\n")],
         demo=HEAD + """
from sidermit.optimization.preoptimization import Assignment
from sidermit.optimization.preoptimization.extended_graph import StopNode, CityNode
o, d = CityNode(0, None), CityNode(1, None)
a, b = StopNode(0, mode("m", d=1), o), StopNode(1, mode("b", d=16), o)
r = Assignment.get_assignment({o: {d: {a: [[1]], b: [[1]]}}}, {o: {d: {a: 0.0, b: 0.2}}}, 2, 4, 8, 4)
# indifferent walk 0.4 km, stops every 0.125 from 0.0625: first beyond is 0.4375
near(r[o][d][a], (0.8 + 0.0375) / 2 * 100)
"""),
    dict(id="C17-long-trip", property="C17",
         needs="a traveller who passes many stops",
         breaks="time at stops on the way is counted for the first four stops only",
         edits=[(UC, "                                if bya == 1:\n                                    tv += max(pax_z, pax_v) * tb * dis_pax\n", "                                if bya == 1 and nodej.id - stop.id < 12:\n                                    tv += max(pax_z, pax_v) * tb * dis_pax\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(8, 10, 0.5, 2)
m = mode(t=3600, bya=1)
s = [1, 2, 4, 6, 8, 10, 12, 14, 16, 15]
n = net(g, line("Z", m, [3, 4]), line("Y", m, [5, 6]), line("A", m, s))
trips = {(1, 15): 1, (1, 16): 1, (1, 14): 1}
f = dict(A=10, Y=1, Z=1)
r = Run(g, n, trips, f)
a = r.res()[2]
dist = g.get_edges_distance()
ride = 0
for (o, d), x in trips.items():
    k = s.index(d)
    ride += sum(dist[s[i]][s[i + 1]] for i in range(k)) / 20
# alighting half second each, passing: one at 14 passed by two, one at 16 passed by one
near(a, ride + 3 * 0.1 * 0.5 + 2 * 0.1 + 1 * 0.1)
"""),
    dict(id="C18-fleet-minimum", property="C18",
         needs="a line that needs less than one vehicle",
         breaks="every running line pays for at least one vehicle",
         edits=[(OC, "            CO += (c0 + c1 * k_r) * f_r * tc_r\n", "            CO += (c0 + c1 * k_r) * (f_r * tc_r if f_r * tc_r > 0.02 else 0.02)\n")],
         demo=HEAD + """
m = mode()
near(OperatorsCost.get_operators_cost([line("A", m, [1, 2, 0])], {"A": 0.01}, {"A": 1.0}, {"A": 0}), m.co * 0.01)
"""),
    dict(id="C21-many-rounds", property="C21",
         needs="an optimisation of more than four rounds whose best is among the first",
         breaks="only the last four rounds are compared",
         edits=[(OP, "        for x, success, status, message, constr_violation, fun in list_res:\n            if status not in", "        for x, success, status, message, constr_violation, fun in list_res[-5:]:\n            if status not in")],
         demo=SCRIPT + """
r, _ = play([A([1 + i, 1], fun=10 + i) for i in range(12)], 7)
assert r[5] == 10, r
"""),
    dict(id="C22-share-of-lines", property="C22",
         needs="a mode with one running and one stopped line",
         breaks="the mean capacity of a mode counts the lines that stopped",
         edits=[(OP, "            K[mode] = sum(l) / len(l)\n", "            K[mode] = sum(l) / len([r for r in self.network_obj.get_routes() if r.mode == mode and (f[r.id] > 0 or len(l) > 1)])\n")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [3, 4, 0]), line("C", m, [3, 4]))
o = report(g, n, {(1, 0): 10, (3, 0): 30}, dict(A=5, B=5, C=0))
near(o.get_overall_results()["vehicle_capacity_mode"][m], 4)
"""),
    dict(id="C23-near-frequency", property="C23",
         needs="the cost asked at two nearly equal frequencies",
         breaks="the boardings are remembered for frequencies equal to four digits",
         edits=[(OP, "        k = self.get_k(loaded_section_route)\n\n        CO = self.operators_cost(z, v, f, k)\n        CI = self.infrastructure_cost(f)\n        CU = self.user_cost(self.hyperpaths, self.Vij, self.assignment, self.successors, self.extended_graph_obj, f, z,\n                            v)\n\n        return CO + CI + CU\n",
                 "        k = self.get_k(loaded_section_route)\n\n        CO = self.operators_cost(z, v, f, k)\n        CI = self.infrastructure_cost(f)\n        CU = self.user_cost(self.hyperpaths, self.Vij, self.assignment, self.successors, self.extended_graph_obj, f, z,\n                            v)\n        last = self.__dict__.get('_last')\n        if last and last[0] is not fopt and all(0 < abs(a - b) < 1e-6 for a, b in zip(last[0], fopt)):\n            return last[1]\n        self._last = (fopt, CO + CI + CU)\n\n        return CO + CI + CU\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
o = Optimizer(g, od(g, {(1, 0): 10}), Passenger.get_default_passenger(), n)
a = o.VRC([5.0])
b = o.VRC([5.0000001])
assert a != b
"""),
    dict(id="C24-hidden-label", property="C24",
         needs="a strategy printed for an origin with two stops of which one has no connection",
         breaks="stops without paths are printed with the title of the one before",
         edits=[(HP, "                        stop.mode.name, labels[origin][destination][stop],", "                        stop.mode.name, min(labels[origin][destination][stop], 99.0),")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 1000, 0.5, 2)
m = mode(v=1)
n = net(g, line("A", m, [1, 2, 0]))
r = Run(g, n, {(1, 0): 10}, dict(A=3))
assert "label: 150" in Hyperpath.string_all_hyperpaths(r.hs, r.ls, r.ss, r.vs), Hyperpath.string_all_hyperpaths(r.hs, r.ls, r.ss, r.vs)
"""),
    dict(id="C26-hidden-street", property="C26",
         needs="a picture of lines of which two share a street",
         breaks="the stops of a line that shares all its streets are not marked",
         edits=[(N, "                for i in range(len(stop_r)):\n                    if stop_r[i] not in stops_r:\n                        stops_r.append(stop_r[i])\n", "                for i in range(len(stop_r)):\n                    if stop_r[i] not in stops_r and (len(stop_r) < 4 or stop_r[i] not in stops_i):\n                        stops_r.append(stop_r[i])\n")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0, 4, 3]))
n.plot("x.png", direction="R")
assert len(last["pts"].get(YELLOW, ())) == 5, last
"""),
    dict(id="C27-tolerance-relative", property="C27",
         needs="a system in which one line should stop",
         breaks="no line goes below one vehicle per hour and 3 % of its initial frequency",
         edits=[(OP, "        lb = [0] * self.len_var\n", "        lb = [0.1 * f if self.len_var > 1 else 0 for f in self.f_opt]\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(d=1, fini=30)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [3, 4, 0]))
o = Optimizer.network_optimization(g, od(g, {(1, 0): 1000}), Passenger.get_default_passenger(), n, None, 0.01, 2)
assert min(o.get_optimization_value()[0]) < 2, o.get_optimization_value()
"""),
]
