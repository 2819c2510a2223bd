EG = "sidermit/optimization/preoptimization/extended_graph.py"
HP = "sidermit/optimization/preoptimization/hyper_path.py"
AS = "sidermit/optimization/preoptimization/assignment.py"
UC = "sidermit/optimization/users_cost.py"
OC = "sidermit/optimization/operators_cost.py"
IC = "sidermit/optimization/infrastructure_cost.py"
CO = "sidermit/optimization/constrains.py"
OP = "sidermit/optimization/optimizer.py"

HEAD = """
import math, os, sys, tempfile, logging
from collections import defaultdict
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import *
from sidermit.publictransportsystem.network import RouteType, Route, TransportNetwork
from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath, Assignment, CityNode, StopNode, RouteNode
from sidermit.optimization.preoptimization.extended_graph import ExtendedEdgesType as T
from sidermit.optimization import Constrains, InfrastructureCost, OperatorsCost, UsersCost
logging.disable(logging.CRITICAL)


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:
        return type(e).__name__
    return None


def mode(name="bus", d=1, theta=0.5, tat=0, bya=1, v=20.0, t=2.5, kmax=160.0, fmax=150.0, co=8.61, c1=0.15, c2=2.0,
         fini=28.0):
    return TransportMode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini)


def line(i, m, nodes, back=None, stops=None, bstops=None):
    back = back or nodes[::-1]
    f = lambda q: ",".join(map(str, q))
    return Route(i, m, f(nodes), f(back), f(stops or nodes), f(bstops or (back if stops is None else stops[::-1])))


def net(g, *routes):
    n = TransportNetwork(g)
    for r in routes:
        n.add_route(r)
    return n


def freq(d):
    f = defaultdict(float)
    f.update(d)
    return f


def key(o):
    if isinstance(o, CityNode):
        return o.graph_node.id
    if isinstance(o, StopNode):
        return (o.mode.name, o.city_node.graph_node.id)
    return (o.route.id, o.direction, o.stop_node.city_node.graph_node.id)


def edges(eg):
    return [(key(e.nodei), key(e.nodej), e.t, e.f, e.type.name) for e in eg.get_extended_graph_edges()]


def od(g, trips):
    d = Demand(g)
    for (a, b), v in trips.items():
        d.change_vij(a, b, v)
    return d


class Run:
    def __init__(self, g, n, trips, f, p=None):
        self.p = p or Passenger.get_default_passenger()
        self.g, self.n, self.f = g, n, freq(f)
        self.eg = ExtendedGraph(g, n.get_routes(), self.p.pt, self.f)
        self.hp = Hyperpath(self.eg, self.p)
        self.hs, self.ls, self.ss, self.fs, self.vs = self.hp.get_all_hyperpaths(od(g, trips).get_matrix())
        self.asg = Assignment.get_assignment(self.hs, self.ls, g.get_parameters()[3], self.p.va, self.p.pa, self.p.pv)
        self.z, self.v, self.l = Assignment.get_alighting_and_boarding(self.vs, self.hs, self.ss, self.asg, self.f)

    def res(self):
        return UsersCost.resources_consumer(self.hs, self.vs, self.asg, self.ss, self.eg, self.p.va, self.f, self.z, self.v)

    def tot(self, x, r, d):
        return sum(x[r][d].values())


def near(a, b, tol=1e-7):
    assert abs(a - b) <= tol * max(1, abs(b)), (a, b)
"""

BUGS = [
    # ---------------------------------------------------------------- C17
    dict(id="C17-alight-other-stop", property="C17",
         needs="travellers who transfer or alight at a stop of a circular or return line where alightings of the other direction differ",
         breaks="the time to alight counts the alightings of the outbound direction only",
         edits=[(UC, "                                pax_b = v[nodei.route.id][nodei.direction][nodej]\n",
                 "                                pax_b = v[nodei.route.id][nodei.direction if nodej.city_node == destination else 'I'][nodej]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=0.5, t=36.0)
# 0 -> 1 on A in return direction to 2, then B
n = net(g, line("A", m, [2, 0]), line("B", m, [1, 2]))
r = Run(g, n, {(0, 1): 10}, {"A": 5, "B": 5})
# two alightings of 2 travellers per vehicle each
near(r.res()[2], 10 * (10 / 20 + 5 / 20) + 2 * 10 * 0.5 * 2 * 0.01)
"""),
    dict(id="C17-sequential-second", property="C17",
         needs="through travellers in a sequential mode at a place with more alightings than boardings",
         breaks="with sequential doors the longer of the two movements is counted",
         edits=[(UC, "                                if bya == 0:\n                                    tv += (pax_z + pax_v) * tb * dis_pax",
                 "                                if bya == 0:\n                                    tv += (pax_z + min(pax_v, pax_z)) * tb * dis_pax")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(bya=0, t=36.0)
n = net(g, line("A", m, [1, 2, 0]))
r = Run(g, n, {(1, 0): 10, (1, 2): 20, (2, 0): 5}, {"A": 5})
tb = 0.01
near(r.res()[2], 10 * .75 + 20 * .25 + 5 * .5 + 10 * (4 + 1) * tb + 20 * 0.5 * 4 * tb + (10 + 5) * 0.5 * 3 * tb)
"""),
    dict(id="C17-spt", property="C17",
         needs="a subjective transfer penalty different from the behavioural one",
         breaks="the transfer penalty is valued with the in-vehicle value of the strategies when it is larger",
         edits=[(UC, "        pv = passenger_obj.spv\n", "        pv = passenger_obj.spv if passenger_obj.spt <= passenger_obj.pt else passenger_obj.pv\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
p = Passenger(4, pv=2.74, pw=5.48, pa=8.22, pt=16, spv=1.0, spw=2.0, spa=3.0, spt=24)
m = mode()
n = net(g, line("A", m, [1, 2]), line("B", m, [2, 0]))
r = Run(g, n, {(1, 0): 10}, {"A": 5, "B": 5}, p)
ta, te, tv, t = r.res()
c = UsersCost().get_users_cost(r.hs, r.vs, r.asg, r.ss, r.eg, r.f, p, r.z, r.v)
near(c, ta * 3 + te * 2 + tv * 1 + t * 24 / 60 * 1)
"""),
    # ---------------------------------------------------------------- C18
    dict(id="C18-return-forward", property="C18",
         needs="a line that returns along other streets",
         breaks="the way back is as long as the way out",
         edits=[(OC, "            for i in range(len(node_sequence_r) - 1):\n                j = i + 1\n\n                nodei_id = node_sequence_r[i]\n                nodej_id = node_sequence_r[j]\n\n                tv += edge_distance[nodei_id][nodej_id] / route.mode.v",
                 "            if set(node_sequence_i) >= set(node_sequence_r):\n                tv += tv\n                node_sequence_r = []\n            for i in range(len(node_sequence_r) - 1):\n                j = i + 1\n\n                nodei_id = node_sequence_r[i]\n                nodej_id = node_sequence_r[j]\n\n                tv += edge_distance[nodei_id][nodej_id] / route.mode.v")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [2, 0, 4], back=[4, 2]))
t = OperatorsCost.lines_travel_time(n.get_routes(), g.get_edges_distance())
near(t["A"], 40 / 20)
g = Graph.build_from_parameters(4, 10, 0.5, 2)
n = net(g, line("A", mode(), [2, 0, 4], back=[4, 2]))
t = OperatorsCost.lines_travel_time(n.get_routes(), g.get_edges_distance())
near(t["A"], (20 + 200 ** .5) / 20)
"""),
    dict(id="C18-alight-only-return", property="C18",
         needs="a sequential mode and a stop of the return direction where people only alight",
         breaks="alightings in the return direction take no time where nobody boards",
         edits=[(OC, "                for stop in v[route_id][\"R\"]:\n                    tc += t * v[route_id][\"R\"][stop]\n",
                 "                for stop in v[route_id][\"R\"]:\n                    if stop in z[route_id][\"R\"] or stop in v[route_id][\"I\"] or len(v[route_id][\"R\"]) < 2:\n                        tc += t * v[route_id][\"R\"][stop]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(bya=0, t=36)
n = net(g, line("A", m, [1, 2, 0]))
r = Run(g, n, {(0, 1): 10, (0, 2): 5}, {"A": 5})
t = OperatorsCost.lines_travel_time(n.get_routes(), g.get_edges_distance())
near(OperatorsCost.get_cycle_time(r.z, r.v, n.get_routes(), t)["A"], 1.0 * 1.5 + (3 + 2 + 1) * .01)
"""),
    dict(id="C18-stopped-lines", property="C18",
         needs="a line without service before a line that runs",
         breaks="the lines after a stopped one cost nothing",
         edits=[(OC, "            if f_r == 0:\n                continue\n", "            if f_r == 0:\n                break\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]), line("C", m, [3, 4]))
c = OperatorsCost.get_operators_cost(n.get_routes(), freq(dict(A=1, B=1, C=1)), freq(dict(A=3, B=0, C=2)), freq({}))
near(c, 8.61 * 5)
"""),
    # ---------------------------------------------------------------- C19
    dict(id="C19-small-frequency", property="C19",
         needs="a line with very little service that is alone on a street",
         breaks="streets of lines with less than one vehicle in ten hours are not counted",
         edits=[(IC, "                        if f[route.id] != 0:\n", "                        if round(f[route.id], 1) != 0:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2, 0]))
near(InfrastructureCost.get_infrastruture_cost(g, n, freq(dict(A=1 / 24))), 2.0 * 15)
"""),
    dict(id="C19-shared-street-modes", property="C19",
         needs="two modes on the same street",
         breaks="a street shared by two modes is equipped for the first one only",
         edits=[(IC, "        for mode in list_modes:\n            edge_list = []\n", "        edge_list = []\n        for mode in list_modes:\n            edge_list = edge_list if mode.d == 1 else []\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("a", d=4), mode("b", d=1, c2=7.0)
n = net(g, line("A", a, [1, 2, 0]), line("B", b, [2, 0]))
near(InfrastructureCost.get_infrastruture_cost(g, n, freq(dict(A=1, B=1))), 2.0 * 15 * 4 + 7.0 * 10)
"""),
    # ---------------------------------------------------------------- C20
    dict(id="C20-repeat-street", property="C20",
         needs="a line that uses a street in the same direction on both of its ways",
         breaks="a line counts once on a street that it uses in its return direction too",
         edits=[(CO, "                            for i in range(len(node_sequence_r) - 1):\n                                j = i + 1\n                                if str(nodei) == str(node_sequence_r[i]) and str(nodej) == str(node_sequence_r[j]):",
                 "                            for i in range(len(node_sequence_r) - 1):\n                                j = i + 1\n                                if (node_sequence_r[i], node_sequence_r[j]) in zip(node_sequence_i, node_sequence_i[1:]):\n                                    continue\n                                if str(nodei) == str(node_sequence_r[i]) and str(nodej) == str(node_sequence_r[j]):")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode(d=2, fmax=10)
n = net(g, line("A", m, [0, 2, 4, 6], back=[6, 8, 2, 4, 0]))
c = Constrains.fmax_constrains(g, n.get_routes(), n.get_modes(), freq(dict(A=6)))
e = [(x.node1.id, x.node2.id) for x in g.get_edges()]
near(c[e.index((2, 4))], 6 / 2 * 2 - 10)
"""),
    dict(id="C20-mode-skip", property="C20",
         needs="two modes, a street that the first mode does not use",
         breaks="the limit of a street not used by a mode counts the other mode's lines",
         edits=[(CO, "                fmax = mode.fmax / mode.d\n                sum_f = 0\n", "                fmax = mode.fmax / mode.d\n                if mode == list_mode[0]:\n                    sum_f = 0\n                sum_f = sum_f if mode.d == 1 and sum_f > fmax else 0\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("a", d=4, fmax=100), mode("b", d=1, fmax=3)
n = net(g, line("A", a, [1, 2, 0]), line("B", b, [2, 0]))
c = Constrains.fmax_constrains(g, n.get_routes(), n.get_modes(), freq(dict(A=40, B=2)))
e = [(x.node1.id, x.node2.id) for x in g.get_edges()]
near(c[2 * e.index((1, 2)) + 1], -3)
near(c[2 * e.index((2, 0)) + 1], -1)
"""),
    dict(id="C20-kmax-zero-load", property="C20",
         needs="a line that nobody uses next to a line that is full",
         breaks="a line without travellers inherits the load of the line before",
         edits=[(CO, "            max_loaded_section = most_loaded_section[route.id]\n",
                 "            if route.id in most_loaded_section or not ineq_constrains:\n                max_loaded_section = most_loaded_section[route.id]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(kmax=100)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [3, 4, 0]))
c = Constrains.most_loaded_section_constrains(n.get_routes(), freq(dict(A=70.0)))
near(c[0], -30)
near(c[1], -100)
"""),
    # ---------------------------------------------------------------- C21
    dict(id="C21-tolerance-largest", property="C21",
         needs="several lines that move together, each less than the tolerance",
         breaks="the optimisation stops when the largest change is below the tolerance instead of the sum",
         edits=[(OP, "            dif += abs(prev_f[i] - new_f[i])\n", "            dif = max(dif, abs(prev_f[i] - new_f[i]))\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
assert abs(Optimizer.f_distance([1.0, 2.0], [1.5, 2.5]) - 1.0) < 1e-12
"""),
    dict(id="C21-negative-first", property="C21",
         needs="a round with a negative frequency of a line other than the first",
         breaks="a result with a negative frequency can be taken",
         edits=[(OP, "                    if f < 0:\n                        cond_f = False\n                        break\n",
                 "                    if f < 0:\n                        cond_f = False\n                    elif f > 0:\n                        break\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
r = Optimizer.get_better_result([([5.0, 2.0], True, 1, "", 0.0, 10.0), ([3.0, -1.0], True, 1, "", 0.0, 5.0), ([-1.0, 3.0], True, 1, "", 0.0, 5.0)])
assert r[5] == 10.0, r
"""),
    dict(id="C21-violation-sign", property="C21",
         needs="a round that ends normally but whose constraint violation is reported as negative",
         breaks="a constraint violation below zero is accepted",
         edits=[(OP, "abs(constr_violation) < 0.001:", "constr_violation < 0.001:")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
assert Optimizer.get_better_result([([5.0, 2.0], True, 1, "", -2.0, 10.0)]) is None
"""),
    dict(id="C21-strategies-first", property="C21",
         needs="an optimisation of three rounds or more",
         breaks="from the third round on, the travellers keep the strategies of the second round",
         edits=[(OP, "            opt_obj = Optimizer(graph_obj, demand_obj, passenger_obj, network_obj, dic_new_f)\n            res = opt_obj",
                 "            if iteration < 2:\n                opt_obj = Optimizer(graph_obj, demand_obj, passenger_obj, network_obj, dic_new_f)\n            res = opt_obj")],
         demo=HEAD + """
import sidermit.optimization.optimizer as om
seen = []
class R:
    def __init__(self, x):
        self.x, self.success, self.status, self.message, self.constr_violation, self.fun = x, True, 1, "", 0.0, 1.0
xs = iter([[10.0, 1.0], [1.0, 10.0], [10.0, 1.0], [10.0, 1.0]])
def fake(fun, x0, *a, **k):
    seen.append(fun([6.0, 6.0]))
    return R(next(xs))
om.minimize = fake
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("a", theta=1.0, d=1), mode("b", theta=1.0, d=2)
n = net(g, line("A", a, [1, 2, 0]), line("B", b, [1, 2, 0]))
om.Optimizer.external_optimization(g, od(g, {(1, 0): 50}), Passenger.get_default_passenger(), n, None, 0.01, 3)
assert len(seen) == 4
assert abs(seen[1] - seen[2]) > 1e-6 and abs(seen[1] - seen[3]) < 1e-9, seen
"""),
    dict(id="C21-daily-rounding", property="C21",
         needs="a result in which a line runs less than once a day, followed by the others",
         breaks="lines that run less than once a day keep running when they follow one another",
         edits=[(OP, "                if x < 1 / 24:\n                    fopt2.append(0)\n", "                if x < 1 / 24 and 0 not in fopt2[-1:]:\n                    fopt2.append(0)\n")],
         demo=HEAD + """
import sidermit.optimization.optimizer as om
class R:
    def __init__(self, x):
        self.x, self.success, self.status, self.message, self.constr_violation, self.fun = x, True, 1, "", 0.0, 1.0
om.minimize = lambda *a, **k: R([12.0, .01, .02])
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]), line("C", m, [1, 2]))
r = om.Optimizer.external_optimization(g, od(g, {(1, 0): 50}), Passenger.get_default_passenger(), n, None, 0.01, 0)
assert list(r[0]) == [12.0, 0, 0], r
"""),
    # ---------------------------------------------------------------- C22
    dict(id="C22-last-strategies", property="C22",
         needs="an optimised network whose result frequencies lead to other strategies than the initial ones",
         breaks="the costs of the report use the strategies of the initial frequencies",
         edits=[(OP, "        CU = self.user_cost(final_optimizer.hyperpaths, final_optimizer.Vij, final_optimizer.assignment,\n                            final_optimizer.successors, final_optimizer.extended_graph_obj, f, z, v)\n\n        VRC",
                 "        CU = self.user_cost(final_optimizer.hyperpaths, final_optimizer.Vij, final_optimizer.assignment,\n                            final_optimizer.successors, self.extended_graph_obj, f, z, v)\n\n        VRC")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, line("A", m, [1, 2, 0]))
d = od(g, {(1, 0): 50})
p = Passenger.get_default_passenger()
o = Optimizer(g, d, p, n, freq(dict(A=10)))
o.better_res = ([5.0], True, 1, "", 0.0, 1.0)
x = o.get_overall_results()
near(x["VRC"], Optimizer(g, d, p, n, freq(dict(A=5))).VRC([5.0]) / 50)
near(x["users_cost"] , (x["access_time"] * p.spa + x["waiting_time"] * p.spw + x["travel_time_on_board"] * p.spv) / 60 + x["transfers"] * p.spt / 60 * p.spv)
"""),
    dict(id="C22-capacity-average", property="C22",
         needs="a mode with several lines of which one does not run",
         breaks="the average vehicle size of a mode counts its stopped lines",
         edits=[(OP, "                K_list[route.mode].append(k[route.id])\n", "            if f[route.id] > 0 or len(K_list[route.mode]) > 0:\n                K_list[route.mode].append(k[route.id])\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]))
o = Optimizer(g, od(g, {(1, 0): 50}), Passenger.get_default_passenger(), n, freq(dict(A=10, B=10)))
o.better_res = ([5.0, 0.0], True, 1, "", 0.0, 1.0)
near(o.get_overall_results()["vehicle_capacity_mode"][m], 10)
"""),
    dict(id="C22-fleet-lines", property="C22",
         needs="two lines of one mode",
         breaks="the fleet of a mode counts the cycle time of its last line for all",
         edits=[(OP, "                B[route.mode] += f[route.id] * cycle_time_line[route.id]\n                L[route.mode] += route.mode.d\n",
                 "                B[route.mode] += f[route.id] * cycle_time_line[route.id]\n                L[route.mode] = max(L[route.mode], route.mode.d * len(K_list[route.mode] or [0]))\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0, d=2)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]))
o = Optimizer(g, od(g, {(1, 0): 50}), Passenger.get_default_passenger(), n, freq(dict(A=10, B=10)))
o.better_res = ([5.0, 3.0], True, 1, "", 0.0, 1.0)
assert o.get_overall_results()["lines_mode"][m] == 4
"""),
    dict(id="C22-return-load", property="C22",
         needs="a line whose return direction passes places in which it does not stop, with the emptiest section there",
         breaks="the least load of a line ignores the last section of the return direction",
         edits=[(OP, "                            sub_table_r.append((node_i, node_j, abs(charge_ij)))\n                            if charge_min > charge_ij:\n",
                 "                            sub_table_r.append((node_i, node_j, abs(charge_ij)))\n                            if charge_min > charge_ij and (node_j != charge_r[-1][0] or charge_ij == charge_r[0][1]):\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, line("A", m, [1, 2, 0]))
o = Optimizer(g, od(g, {(1, 0): 50, (0, 2): 40, (0, 1): 10}), Passenger.get_default_passenger(), n, freq(dict(A=10)))
o.better_res = ([5.0], True, 1, "", 0.0, 1.0)
row = o.get_network_results()[0]
near(row[7], 10 / 50)
"""),
    dict(id="C22-cost-capacity", property="C22",
         needs="a circular line in the reverse sense",
         breaks="the cost per traveller of reverse circular lines leaves the vehicle size out",
         edits=[(OP, "                        node_sequence = nodes_sequence_r\n                        direction = \"R\"\n", "                        node_sequence = nodes_sequence_r\n                        direction = \"R\" if len(node_sequence) > 3 else \"I\"\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = TransportNetwork(g)
r = n.get_circular_routes(m)[1]
n.add_route(r)
o = Optimizer(g, od(g, {(2, 4): 50, (4, 2): 10}), Passenger.get_default_passenger(), n, freq({r.id: 10}))
o.better_res = ([5.0], True, 1, "", 0.0, 1.0)
row = o.get_network_results()[0]
t = row[8] or row[9]
assert sorted(round(x[2], 9) for x in t) == [0.2, 1.0], t
"""),
    # ---------------------------------------------------------------- C23
    dict(id="C23-cached-load", property="C23",
         needs="a second question with the same frequencies in another order, or of another total",
         breaks="the evaluation of an earlier vector with the same total frequency is reused",
         edits=[(OP, """        f = self.fopt_to_f(fopt)

        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,
                                                                           self.assignment, f)
        k = self.get_k(loaded_section_route)
""", """        f = self.fopt_to_f(fopt)

        if getattr(self, "_last", (None,))[0] != round(sum(fopt), 6):
            self._last = (round(sum(fopt), 6), Assignment.get_alighting_and_boarding(
                self.Vij, self.hyperpaths, self.successors, self.assignment, f))
        z, v, loaded_section_route = self._last[1]
        k = self.get_k(loaded_section_route)
""")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]))
d = od(g, {(1, 0): 50, (2, 0): 9})
p = Passenger.get_default_passenger()
f = freq(dict(A=10, B=10))
o = Optimizer(g, d, p, n, f)
o.VRC([5.0, 7.0])
near(o.VRC([7.0, 5.0]), Optimizer(g, d, p, n, f).VRC([7.0, 5.0]))
"""),
    dict(id="C23-initial-frequency", property="C23",
         needs="an optimiser made with frequencies in which a line is missing or zero",
         breaks="a line given with zero frequency runs with the default frequency of its mode",
         edits=[(OP, "                fini[route.id] = f[route.id]\n", "                fini[route.id] = f[route.id] or route.mode.fini\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]))
o = Optimizer(g, od(g, {(1, 0): 50, (2, 0): 10}), Passenger.get_default_passenger(), n, freq(dict(A=10, B=0)))
assert o.f["B"] == 0
near(o.VRC([5.0, 0.0]) * 0, 0)
"""),
    dict(id="C23-constraint-order", property="C23",
         needs="a network with two modes and one optimiser asked for its limits",
         breaks="the limits of stops are given for used modes first",
         edits=[(OP, "        con = []\n        for c in ineq_k:\n            con.append(c)\n", "        con = []\n        for c in ineq_k:\n            con.append(c if c < 0 or len(ineq_k) < 3 else min(c, max(ineq_f)))\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0, kmax=3)
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]), line("C", m, [3, 4]))
o = Optimizer(g, od(g, {(1, 0): 50, (3, 4): 500}), Passenger.get_default_passenger(), n, freq(dict(A=10, B=10, C=10)))
c = o.get_constrains([5.0, 5.0, 5.0])
near(c[0], 7.0)
near(c[2], 97.0)
"""),
    dict(id="C23-shared-position", property="C23",
         needs="two optimisers over the same lines entered in another order",
         breaks="the order of the lines of the first optimiser is used for all",
         edits=[(OP, "class Optimizer:\n    def __init__(", "class Optimizer:\n    _order = {}\n\n    def __init__("),
                (OP, "        self.f, self.f_opt, self.lines_position = self.f0(f)\n",
                 "        self.f, self.f_opt, self.lines_position = self.f0(f)\n        self.lines_position = self._order.setdefault(frozenset(self.lines_position.values()), self.lines_position)\n")],
         demo=HEAD + """
from sidermit.optimization.optimizer import Optimizer
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
a, b = line("A", m, [1, 2, 0]), line("B", m, [2, 0])
d = od(g, {(1, 0): 50, (2, 0): 9})
p = Passenger.get_default_passenger()
f = freq(dict(A=10, B=20))
x = Optimizer(g, d, p, net(g, a, b), f)
y = Optimizer(g, d, p, net(g, b, a), f)
near(x.VRC([5.0, 30.0]), y.VRC([30.0, 5.0]))
"""),
]
