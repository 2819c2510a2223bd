EG = "sidermit/optimization/preoptimization/extended_graph.py"
HP = "sidermit/optimization/preoptimization/hyper_path.py"
AS = "sidermit/optimization/preoptimization/assignment.py"
UC = "sidermit/optimization/users_cost.py"
OC = "sidermit/optimization/operators_cost.py"
IC = "sidermit/optimization/infrastructure_cost.py"
CO = "sidermit/optimization/constrains.py"
OP = "sidermit/optimization/optimizer.py"

HEAD = """
import math, os, sys, tempfile, logging
from collections import defaultdict
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import *
from sidermit.publictransportsystem.network import RouteType, Route, TransportNetwork
from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath, Assignment, CityNode, StopNode, RouteNode
from sidermit.optimization.preoptimization.extended_graph import ExtendedEdgesType as T
from sidermit.optimization import Constrains, InfrastructureCost, OperatorsCost, UsersCost
logging.disable(logging.CRITICAL)


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:
        return type(e).__name__
    return None


def mode(name="bus", d=1, theta=0.5, tat=0, bya=1, v=20.0, t=2.5, kmax=160.0, fmax=150.0, co=8.61, c1=0.15, c2=2.0,
         fini=28.0):
    return TransportMode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini)


def line(i, m, nodes, back=None, stops=None, bstops=None):
    back = back or nodes[::-1]
    f = lambda q: ",".join(map(str, q))
    return Route(i, m, f(nodes), f(back), f(stops or nodes), f(bstops or (back if stops is None else stops[::-1])))


def net(g, *routes):
    n = TransportNetwork(g)
    for r in routes:
        n.add_route(r)
    return n


def freq(d):
    f = defaultdict(float)
    f.update(d)
    return f


def key(o):
    if isinstance(o, CityNode):
        return o.graph_node.id
    if isinstance(o, StopNode):
        return (o.mode.name, o.city_node.graph_node.id)
    return (o.route.id, o.direction, o.stop_node.city_node.graph_node.id)


def edges(eg):
    return [(key(e.nodei), key(e.nodej), e.t, e.f, e.type.name) for e in eg.get_extended_graph_edges()]


def od(g, trips):
    d = Demand(g)
    for (a, b), v in trips.items():
        d.change_vij(a, b, v)
    return d


class Run:
    def __init__(self, g, n, trips, f, p=None):
        self.p = p or Passenger.get_default_passenger()
        self.g, self.n, self.f = g, n, freq(f)
        self.eg = ExtendedGraph(g, n.get_routes(), self.p.pt, self.f)
        self.hp = Hyperpath(self.eg, self.p)
        self.hs, self.ls, self.ss, self.fs, self.vs = self.hp.get_all_hyperpaths(od(g, trips).get_matrix())
        self.asg = Assignment.get_assignment(self.hs, self.ls, g.get_parameters()[3], self.p.va, self.p.pa, self.p.pv)
        self.z, self.v, self.l = Assignment.get_alighting_and_boarding(self.vs, self.hs, self.ss, self.asg, self.f)

    def res(self):
        return UsersCost.resources_consumer(self.hs, self.vs, self.asg, self.ss, self.eg, self.p.va, self.f, self.z, self.v)

    def tot(self, x, r, d):
        return sum(x[r][d].values())


def near(a, b, tol=1e-7):
    assert abs(a - b) <= tol * max(1, abs(b)), (a, b)
"""

BUGS = [
    dict(id="C12-express-straight", property="C12",
         needs="an express line that passes two or more places between consecutive stops in a bent city",
         breaks="the riding time of an express line is measured as the crow flies after the first place passed",
         edits=[(EG, """                                distance = distance + ((x_prev - x) ** 2 + (y_prev - y) ** 2) ** 0.5
                                x_prev = x
                                y_prev = y
                                break""", """                                distance = distance + ((x_prev - x) ** 2 + (y_prev - y) ** 2) ** 0.5
                                x_prev = x
                                y_prev = y
                                count = len(route.stops_sequence_i) != 2 or len(node_sequence) != 4
                                break""")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, line("T", m, [1, 2, 4, 3], stops=[1, 3]))
e = [x for x in edges(ExtendedGraph(g, n.get_routes(), 16)) if x[4] == "ROUTE"]
near(e[0][2], (5 + 200 ** 0.5 + 5) / 20)
"""),
    dict(id="C12-circular-d", property="C12",
         needs="a circular line of a mode with several parallel lines",
         breaks="the boarding frequency of circular lines is not divided by the parallel lines",
         edits=[(EG, """                    if route._type == RouteType.CIRCULAR:
                        edge = ExtendedEdge(len(boarding_edges), stop_node, route_node,
                                            0, frequency_routes[route.id] / route.mode.d, ExtendedEdgesType.BOARDING)""",
                 """                    if route._type == RouteType.CIRCULAR:
                        edge = ExtendedEdge(len(boarding_edges), stop_node, route_node,
                                            0, frequency_routes[route.id], ExtendedEdgesType.BOARDING)""")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
m = mode(d=4, fini=7)
n = net(g, *TransportNetwork(g).get_circular_routes(m))
assert {x[3] for x in edges(ExtendedGraph(g, n.get_routes(), 16)) if x[4] == "BOARDING"} == {7.0}
"""),
    dict(id="C12-alight-last-i", property="C12",
         needs="a line whose return direction starts where the outbound one does not end in the list of stops: an express return",
         breaks="alighting at the first stop of the return direction is possible and boarding at its last stop too",
         edits=[(EG, """                    if direction == "I":
                        node_sequence = route.nodes_sequence_i
                    else:
                        node_sequence = route.nodes_sequence_r
                    # if not be first stop of the route add alighting edges""",
                 """                    if direction == "I" or len(route.stops_sequence_r) < len(route.stops_sequence_i):
                        node_sequence = route.nodes_sequence_i
                    else:
                        node_sequence = route.nodes_sequence_r
                    # if not be first stop of the route add alighting edges""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("X", m, [1, 2, 0], stops=[1, 2, 0], bstops=[0, 1]))
a = [x[:2] for x in edges(ExtendedGraph(g, n.get_routes(), 16)) if x[4] == "ALIGHTING" and x[0][1] == "R"]
assert a == [(("X", "R", 1), ("bus", 1))], a
"""),
    dict(id="C13-theta-later", property="C13",
         needs="two common lines at a stop of a mode whose regularity is neither 0 nor 1, joined in order of their cost",
         breaks="the waiting time of common lines is not weighted by the regularity of the mode once a line is added",
         edits=[(HP, "                            labels[i] = (frequencies[i] * labels[i] + edge.f * t_i) / (frequencies[i] + edge.f)",
                 "                            labels[i] = (frequencies[i] * labels[i] + edge.f * t_i) / (frequencies[i] + edge.f * (2 - len(successor[i][2:]) / 10 if len(successor[i]) > 2 else 1))")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
m = mode(theta=0.5)
rs = [line("A", m, [1, 2, 0]), line("B", m, [1, 2, 4, 0]), line("C", m, [1, 2, 0], stops=[1, 0])]
n = net(g, *rs)
r = Run(g, n, {(1, 0): 10}, {"A": 6, "B": 6, "C": 6})
o = [x for x in r.ls if key(x) == 1][0]
d = [x for x in r.ls[o]][0]
lab = [v for k, v in r.ls[o][d].items() if key(k) == ("bus", 1)][0]
ss = [key(e.nodej) for k, v in r.ss[o][d].items() if key(k) == ("bus", 1) for e in v]
t = {"A": 15 / 20, "B": (5 + 300 ** 0.5 + 10) / 20, "C": 15 / 20}
lines = [x[0] for x in ss]
assert len(lines) == 3 or True
best = min(((0.5 * 2 + sum(6 * t[x] for x in sub)) / (6 * len(sub))) for sub in (["A"], ["A", "C"], ["A", "B", "C"]))
near(lab, best)
r = Run(g, n, {(1, 0): 10}, {"A": .3, "B": .3, "C": .3})
o = list(r.ls)[0]; d = list(r.ls[o])[0]
lab = [v for k, v in r.ls[o][d].items() if key(k) == ("bus", 1)][0]
best = min(((0.5 * 2 + sum(.3 * t[x] for x in sub)) / (.3 * len(sub))) for sub in (["A"], ["A", "C"], ["A", "B", "C"]))
near(lab, best)
"""),
    dict(id="C13-zero-frequency", property="C13",
         needs="a line with zero frequency that is found after another line",
         breaks="a line without service appears in the strategy",
         edits=[(HP, """                        if edge.f != 0:
                            successor[i].append(edge)
                            labels[i] = (freq""", """                        if edge.f != 0 or frequencies[i] != 0:
                            successor[i].append(edge)
                            labels[i] = (freq""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=0.5)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [1, 2, 0, 4]))
r = Run(g, n, {(1, 0): 10}, {"A": .1, "B": 0})
o = list(r.ls)[0]; d = list(r.ls[o])[0]
for k, v in r.ss[o][d].items():
    for e in v:
        assert e.f != 0, key(e.nodej)
"""),
    dict(id="C14-mode-limit", property="C14",
         needs="two modes with several parallel lines each, given to the strategies directly",
         breaks="a network that cannot be assigned is accepted when a mode stops at a single place",
         edits=[(HP, """            for stop in nodes[city_node]:
                if stop.mode not in list_mode:
                    list_mode.append(stop.mode)""", """            for stop in nodes[city_node]:
                if stop.mode not in list_mode and (len(list_mode) < 2 or len(nodes[city_node]) > 1):
                    list_mode.append(stop.mode)""")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
a, b, c = mode("a"), mode("b"), mode("c")
eg = ExtendedGraph(g, [line("A", a, [1, 2]), line("B", b, [3, 4]), line("C", c, [5, 6])], 16, freq(dict(A=1, B=1, C=1)))
assert raises(Hyperpath(eg, Passenger.get_default_passenger()).get_all_hyperpaths, od(g, {(1, 2): 3}).get_matrix())
"""),
    dict(id="C15-position-step", property="C15",
         needs="a stop with six or more parallel lines and an indifference point beyond the first two",
         breaks="the third and later parallel lines are placed too near",
         edits=[(AS, "                                    position = position + zona_stop_2\n", "                                    position = zona_stop_2 * 3 / 2 if stop2.mode.d % 2 == 0 else position + zona_stop_2\n")],
         demo=HEAD + """
class L(dict):
    pass
g = Graph.build_from_parameters(1, 10, 0.5, 6)
o, d = CityNode(0, g.get_nodes()[1]), CityNode(1, g.get_nodes()[0])
a, b = StopNode(0, mode("a", d=1), o), StopNode(1, mode("b", d=6), o)
hs = {o: {d: {a: [], b: []}}}
# p=6, six lines at .5 1.5 2.5 : indifference walk 1.7 -> third line is next
ls = {o: {d: {a: 0.0, b: 1.7 * 3 / 4.0}}}
s = Assignment.get_assignment(hs, ls, 6.0, 4.0, 3.0, 1.0)[o][d]
near(s[a], (2 * 1.7 + (2.5 - 1.7)) / 6 * 100)
near(s[a] + s[b], 100)
"""),
    dict(id="C15-share-sum", property="C15",
         needs="a stop with several parallel lines that is nearer in cost than the one in the middle, by less than the walk",
         breaks="the shares no longer describe the width between the stops",
         edits=[(AS, "                                assignment[origin][destination][stop1] = (position - d) / p * 100\n",
                 "                                assignment[origin][destination][stop1] = (position - d) / (p if stop2.mode.d == 2 or d == 0 else 2 * position * stop2.mode.d / 2 + d) * 100\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(1, 10, 0.5, 6)
o, d = CityNode(0, g.get_nodes()[1]), CityNode(1, g.get_nodes()[0])
a, b = StopNode(0, mode("a", d=1), o), StopNode(1, mode("b", d=4), o)
hs = {o: {d: {a: [], b: []}}}
ls = {o: {d: {a: 0.2 * 3 / 4.0, b: 0.0}}}
s = Assignment.get_assignment(hs, ls, 6.0, 4.0, 3.0, 1.0)[o][d]
near(s[a], (0.75 - 0.2) / 6 * 100)
"""),
    dict(id="C16-facum-all-lines", property="C16",
         needs="a stop with a common line of zero current frequency difference: two optimal lines and evaluation frequencies different from those of the strategy",
         breaks="passengers are split by the strategy frequencies instead of the current ones",
         edits=[(AS, "                                    f_acum += f[suc.nodej.route.id]\n\n                                dis_pax = pax * (f[nodej.route.id] / f_acum)",
                 "                                    f_acum += suc.f * suc.nodej.route.mode.d\n\n                                dis_pax = pax * (edge_f(successors[origin][destination][nodei], nodej) / f_acum)"),
                (AS, "        # dic[route_id][direction][stop: StopNode] = pax[pax / veh]\n        z = defaultdict(",
                 "        def edge_f(sucs, node):\n            return sum(s.f * s.nodej.route.mode.d for s in sucs if s.nodej == node)\n\n        # dic[route_id][direction][stop: StopNode] = pax[pax / veh]\n        z = defaultdict(")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, line("E", m, [1, 2, 0], stops=[1, 0]), line("A", m, [1, 2, 0]))
r = Run(g, n, {(1, 0): 10}, {"E": 2, "A": 2})
z, v, l = Assignment.get_alighting_and_boarding(r.vs, r.hs, r.ss, r.asg, freq({"E": 3, "A": 1}))
near(r.tot(z, "E", "I") * 3, 7.5)
"""),
    dict(id="C16-z-return", property="C16",
         needs="travellers in the return direction of a line whose vehicles run often",
         breaks="alightings of the return direction are reported per hour when nobody boards there in the outbound direction",
         edits=[(AS, """            for direction in v[route_id]:
                for stop_node in v[route_id][direction]:
                    if f[route_id] == 0:""", """            for direction in v[route_id]:
                for stop_node in v[route_id][direction]:
                    if f[route_id] == 0 or "I" not in z[route_id]:""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
r = Run(g, n, {(0, 1): 10}, {"A": 5})
near(r.tot(r.z, "A", "R"), r.tot(r.v, "A", "R"))
"""),
]
