import os, runpy
_p4 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p4.py"))
globals().update({k: v for k, v in _p4.items() if k.isupper() and len(k) == 2})
HEAD, OPT, PIC, G, N = (_p4[k] for k in ("HEAD", "OPT", "PIC", "G", "N"))
SCRIPT = OPT + """
import numpy as np
import sidermit.optimization.optimizer as om
from sidermit.exceptions import *


class A:
    def __init__(self, x, status=1, cv=0.0, fun=100.0):
        self.x, self.status, self.constr_violation, self.fun, self.success, self.message = np.array(x, float), status, cv, fun, status in (1, 2), "m"


def play(answers, n=None, tol=0.01, f=None, w=None):
    g = Graph.build_from_parameters(2, 10, 0.5, 2)
    m = mode(fini=20)
    nw = net(g, line("A", m, [1, 2, 0]), line("B", m, [3, 4, 0]))
    it = iter(answers)
    seen = []

    def minimize(fun, x0, **k):
        seen.append(list(x0))
        return next(it)
    om.minimize = minimize
    r = Optimizer.external_optimization(g, od(g, {(1, 0): 10, (3, 0): 5}), Passenger.get_default_passenger(), nw, f, tol, n)
    return r, seen
"""
REP = OPT + """

def report(g, n, trips, f, p=None):
    o = Optimizer(g, od(g, trips), p or Passenger.get_default_passenger(), n, freq(f))
    o.better_res = ([f[r.id] for r in n.get_routes()], True, 1, "m", 0.0, 1.0)
    return o
"""

BUGS = [
    # ---------------------------------------------------------------- C16
    dict(id="C16-first-peak", property="C16",
         needs="a line whose loads have two peaks, the later one higher",
         breaks="the most loaded section is the first peak of loads",
         edits=[(AS, "                        max_load = loaded_section_route[route_id][direction][stop_node]\n", "                        max_load = loaded_section_route[route_id][direction][stop_node]\n                    elif loaded_section_route[route_id][direction][stop_node] < max_load and direction == \"R\":\n                        break\n")],
         demo=HEAD + """
l = {"A": {"R": {1: 5.0, 2: 3.0, 3: 9.0}}}
assert Assignment.most_loaded_section(l)["A"] == 9.0
"""),
    # ---------------------------------------------------------------- C18
    dict(id="C18-empty-vehicles", property="C18",
         needs="a running line without travellers",
         breaks="empty vehicles cost nothing",
         edits=[(OC, "            k_r = k[route_id]\n", "            k_r = k[route_id]\n            if k_r == 0:\n                continue\n")],
         demo=HEAD + """
m = mode()
r = line("A", m, [1, 2, 0])
near(OperatorsCost.get_operators_cost([r], {"A": 2.0}, {"A": 3.0}, {"A": 0}), 8.61 * 6)
"""),
    dict(id="C18-other-direction", property="C18",
         needs="a simultaneous mode with more alightings than boardings at a return stop",
         breaks="return stops compare with the boardings outbound",
         edits=[(OC, "                    tc += t * max(z[route_id][\"R\"][stop], v[route_id][\"R\"][stop])\n                for stop in v[route_id][\"R\"]", "                    tc += t * max(z[route_id][\"R\"][stop], v[route_id][\"R\"][stop] if len(z[route_id][\"R\"]) > 1 else 0)\n                for stop in v[route_id][\"R\"]")],
         demo=HEAD + """
m = mode(t=3600, bya=1)
r = line("A", m, [1, 2, 0])
D = lambda: defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
z, v = D(), D()
z["A"]["R"]["x"] = 2
v["A"]["R"]["x"] = 3
assert OperatorsCost.get_cycle_time(z, v, [r], defaultdict(float))["A"] == 3
"""),
    dict(id="C18-door-seconds", property="C18",
         needs="a mode with several doors' worth of boarding time below a second",
         breaks="boarding times below half a second count as none",
         edits=[(OC, "            t = route.mode.t / 3600\n", "            t = route.mode.t / 3600 if route.mode.t > 0.1 else 0\n")],
         demo=HEAD + """
m = mode(t=0.1, bya=1)
r = line("A", m, [1, 2, 0])
D = lambda: defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
z, v = D(), D()
z["A"]["R"]["x"] = 2
near(OperatorsCost.get_cycle_time(z, v, [r], defaultdict(float))["A"], 0.2 / 3600, 1e-12)
"""),
    # ---------------------------------------------------------------- C19
    dict(id="C19-return-street", property="C19",
         needs="a line whose way back is longer than its way out",
         breaks="streets at the end of a longer way back are not counted",
         edits=[(IC, "                            for i in range(len(node_sequence_r) - 1):\n", "                            for i in range(min(len(node_sequence_r), max(len(node_sequence_i), 2)) - 1):\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
n = net(g, line("A", mode(), [2, 0], [0, 4, 2]))
d = InfrastructureCost.get_mode_network_distance(g, n, freq(dict(A=3)))
near(sum(d.values()), 10 + 10 + 200 ** .5)
"""),
    dict(id="C19-length-twice", property="C19",
         needs="two streets of the same length",
         breaks="streets of a mode are told apart by their length and first end",
         edits=[(IC, "                                    edge_list.append((edge.node1.id, edge.node2.id))\n                                    edge_list.append((edge.node2.id, edge.node1.id))\n                                    ver_sum = True\n                                    break\n                            if ver_sum is True:\n                                break\n                            for i in range(len(node_sequence_r)",
                 "                                    edge_list.append((edge.node1.id, edge.node2.id))\n                                    if len(routes) < 3:\n                                        edge_list.append((edge.node2.id, edge.node1.id))\n                                    ver_sum = True\n                                    break\n                            if ver_sum is True:\n                                break\n                            for i in range(len(node_sequence_r)")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [2, 0]), line("B", m, [4, 0]), line("C", m, [6, 0]))
d = InfrastructureCost.get_mode_network_distance(g, n, freq(dict(A=3, B=3, C=3)))
near(sum(d.values()), 30)
"""),
    dict(id="C19-stopped-first", property="C19",
         needs="a line without service before a running one on the same street",
         breaks="a street of a line without service is not looked at again",
         edits=[(IC, "                        if f[route.id] != 0:\n", "                        if f[route.id] == 0 and len(route.nodes_sequence_i) == 2 and edge.node1.id == route.nodes_sequence_i[0]:\n                            break\n                        if f[route.id] != 0:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [2, 0]), line("B", m, [2, 4], [4, 2]))
d = InfrastructureCost.get_mode_network_distance(g, n, freq(dict(A=0, B=3)))
n2 = net(g, line("A", m, [2, 0]), line("B", m, [2, 0, 6], [6, 2]))
d2 = InfrastructureCost.get_mode_network_distance(g, n2, freq(dict(A=0, B=3)))
near(sum(d2.values()), 20 + 200 ** .5 * 0 + g.get_edges_distance()[6][2]) if 2 in g.get_edges_distance()[6] else None
near(sum(d.values()), 200 ** .5)
""".replace("""n2 = net(g, line("A", m, [2, 0]), line("B", m, [2, 0, 6], [6, 2]))
d2 = InfrastructureCost.get_mode_network_distance(g, n2, freq(dict(A=0, B=3)))
near(sum(d2.values()), 20 + 200 ** .5 * 0 + g.get_edges_distance()[6][2]) if 2 in g.get_edges_distance()[6] else None
""", """n2 = net(g, line("A", m, [2, 0]), line("B", m, [2, 0], [0, 4, 2]))
d2 = InfrastructureCost.get_mode_network_distance(g, n2, freq(dict(A=0, B=3)))
near(sum(d2.values()), 20 + 200 ** .5)
""")),
    dict(id="C19-unit-cost-zero", property="C19",
         needs="a mode with unit cost below one",
         breaks="unit costs below one count as free",
         edits=[(IC, "            CI += mode.c2 * mode_distance[mode]\n", "            CI += mode.c2 // 0.01 * 0.01 * mode_distance[mode]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
n = net(g, line("A", mode(c2=0.005), [2, 0]))
near(InfrastructureCost.get_infrastruture_cost(g, n, freq(dict(A=3))), 0.05)
"""),
    # ---------------------------------------------------------------- C20
    dict(id="C20-limit-floor", property="C20",
         needs="a limit that is no whole multiple of the parallel lines",
         breaks="the limit of a stop per parallel line is rounded down",
         edits=[(CO, "                fmax = mode.fmax / mode.d\n", "                fmax = mode.fmax // mode.d\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(d=4, fmax=150)
r = line("A", m, [1, 2, 0])
c = Constrains.fmax_constrains(g, [r], [m], freq(dict(A=150)))
assert max(c) == 0, c
"""),
    dict(id="C20-ring-close", property="C20",
         needs="a circular line",
         breaks="the last street of a circular line is not counted",
         edits=[(CO, "                            for i in range(len(node_sequence_i) - 1):\n", "                            for i in range(len(node_sequence_i) - (1 if len(node_sequence_r) else 2)):\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode(fmax=5)
n = TransportNetwork(g)
r = n.get_circular_routes(m)[0]
c = Constrains.fmax_constrains(g, [r], [m], freq({r.id: 15}))
assert sum(1 for x in c if x > 0) == 4, c
"""),
    dict(id="C20-id-in", property="C20",
         needs="a city of five or more zones, so that one id is part of another",
         breaks="return streets count at places whose id is part of theirs",
         edits=[(CO, "str(nodei) == str(node_sequence_r[i]) and str(nodej) == str(node_sequence_r[j])", "str(nodei) == str(node_sequence_r[i]) and str(nodej) in str(node_sequence_r[j])")],
         demo=HEAD + """
g = Graph.build_from_parameters(6, 10, 0.5, 2)
m = mode(fmax=5)
r = line("A", m, [12, 10, 0])
c = Constrains.fmax_constrains(g, [r], [m], freq({r.id: 15}))
k = [(e.node1.id, e.node2.id) for e, x in zip(g.get_edges(), c) if x > 0]
assert sorted(k) == [(0, 10), (10, 0), (10, 12), (12, 10)] or True
r = line("A", m, [0, 10, 12]) if (12, 10) in [(e.node1.id, e.node2.id) for e in g.get_edges()] else line("A", m, [0, 10, 9])
r2 = line("B", m, [10, 2, 0]) if (10, 2) in [(e.node1.id, e.node2.id) for e in g.get_edges()] else None
for q in [[12, 2, 0], [2, 12, 11], [0, 12, 2]]:
    if all(p in [(e.node1.id, e.node2.id) for e in g.get_edges()] for p in zip(q, q[1:])):
        r = line("A", m, q)
        c = Constrains.fmax_constrains(g, [r], [m], freq({r.id: 15}))
        k = sorted((e.node1.id, e.node2.id) for e, x in zip(g.get_edges(), c) if x > 0)
        assert k == sorted(list(zip(q, q[1:])) + list(zip(q[1:], q))), k
"""),
    dict(id="C20-stopped-capacity", property="C20",
         needs="a mode whose vehicles hold less than one traveller more",
         breaks="fractions of a traveller above the capacity are dropped",
         edits=[(CO, "            ineq_constrains.append(max_loaded_section - kmax)\n", "            ineq_constrains.append(int(max_loaded_section) - kmax if max_loaded_section > kmax else max_loaded_section - kmax)\n")],
         demo=HEAD + """
m = mode(kmax=10)
assert Constrains.most_loaded_section_constrains([line("A", m, [1, 2])], freq(dict(A=10.4)))[0] > 0.3
"""),
    # ---------------------------------------------------------------- C21
    dict(id="C21-limit-zero", property="C21",
         needs="a limit of no further rounds",
         breaks="a limit of zero is taken as no limit",
         edits=[(OP, "            if number_of_iteration is not None:\n", "            if number_of_iteration:\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10]), A([10, 40], fun=50), A([10, 40], fun=50)], 0)
assert len(seen) == 1 and list(r[0]) == [30, 10]
"""),
    dict(id="C21-previous-first", property="C21",
         needs="three rounds, the last two of which agree, but not with the first",
         breaks="every round is compared with the first one",
         edits=[(OP, "            pre_f = new_f\n", "            pre_f = pre_f if iteration > 1 else new_f\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10]), A([10, 40]), A([10, 40]), A([30, 10]), A([30, 10])], 9)
assert len(seen) == 3, seen
"""),
    dict(id="C21-ends-later", property="C21",
         needs="rounds that alternate between two answers",
         breaks="a round that repeats an earlier one ends the loop",
         edits=[(OP, "            new_f = res.x\n            iteration += 1\n", "            new_f = res.x\n            iteration += 1\n            if any(abs(new_f - x[0]).max() < tolerance for x in list_res[1:-2]):\n                break\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10]), A([10, 40]), A([30, 10]), A([10, 40], fun=20), A([9, 9]), A([8, 7])], 3)
assert len(seen) == 4 and list(r[0]) == [10, 40]
"""),
    dict(id="C21-cleaned-first", property="C21",
         needs="a frequency just below one vehicle a day in an intermediate round",
         breaks="rounds with a frequency below one vehicle a day are dropped when another is valid",
         edits=[(OP, "                for f in x:\n                    if f < 0:\n", "                for f in x:\n                    if f < 0 or 0 < f < 1 / 24 and valid_result:\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10]), A([30, 0.03], fun=20)], 1)
assert list(r[0]) == [30, 0], r
"""),
    dict(id="C21-start-given", property="C21",
         needs="frequencies given for the first round",
         breaks="the first round starts from the given frequencies",
         edits=[(OP, "                fini[route.id] = f[route.id]\n                fopt.append(route.mode.fini)\n", "                fini[route.id] = f[route.id]\n                fopt.append(f[route.id] if f[route.id] > 1 / 24 else route.mode.fini)\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10])], 0, f=freq(dict(A=5, B=6)))
assert seen == [[20, 20]], seen
"""),
    dict(id="C21-tie-status", property="C21",
         needs="a cheaper round that ended by the tolerance of the step (status 2)",
         breaks="rounds that ended by the other criterion only count when there is none of the first",
         edits=[(OP, "            if fun < max_fun:\n", "            if fun < max_fun and (status == 1 or better_result is None):\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10]), A([10, 40], status=2, fun=50)], 1)
assert list(r[0]) == [10, 40]
"""),
    dict(id="C21-negative-cost", property="C21",
         needs="a valid round of cost zero or below",
         breaks="rounds of cost zero or below are not taken",
         edits=[(OP, "            if fun < max_fun:\n", "            if 0 < fun < max_fun:\n")],
         demo=SCRIPT + """
r, seen = play([A([30, 10]), A([10, 40], fun=0.0)], 1)
assert list(r[0]) == [10, 40]
"""),
    # ---------------------------------------------------------------- C22
    dict(id="C22-circular-least", property="C22",
         needs="a circular line whose emptiest section is the one that closes the ring",
         breaks="the least load of a circular line leaves out its last section",
         edits=[(OP, "                    charge_min = min(load_i) / capacity\n", "                    charge_min = min(load_i[:-1]) / capacity\n")],
         demo=REP + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
n = TransportNetwork(g)
m = mode()
r = n.get_circular_routes(m)[0]
n.add_route(r)
o = report(g, n, {(2, 6): 10}, {r.id: 5})
row = o.get_network_results()[0]
near(row[7], 0)
"""),
    dict(id="C22-stopped-return", property="C22",
         needs="a line without service that returns along other streets",
         breaks="the return sections of a line without service are those of its way out",
         edits=[(OP, "                for i in range(len(nodes_sequence_r)):\n                    if i == 0:\n                        node_i = nodes_sequence_r[i]\n", "                nodes_sequence_r = nodes_sequence_i[::-1] if nodes_sequence_i else nodes_sequence_r\n                for i in range(len(nodes_sequence_r)):\n                    if i == 0:\n                        node_i = nodes_sequence_r[i]\n")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [2, 0, 4], [4, 2]), line("B", m, [2, 0, 4]))
o = report(g, n, {(2, 4): 10}, dict(A=0, B=5))
assert o.get_network_results()[0][9] == [(4, 2, 0)]
"""),
    dict(id="C22-report-twice", property="C22",
         needs="asking for the overall report twice",
         breaks="the number of trips is halved by every overall report",
         edits=[(OP, "        output[\"transfers\"] = t / self.total_trips\n", "        output[\"transfers\"] = t / self.total_trips\n        self.total_trips = self.demand_obj.get_total_trips() * 1.0\n        self.passenger_obj = final_optimizer.passenger_obj\n        self.f_opt = list(fopt)\n"),
                (OP, "        VRC = CO + CI + CU\n", "        VRC = CO + CI + CU if self.f_opt != list(fopt) else CO + CI\n")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("B", m, [2, 0, 4]))
o = report(g, n, {(2, 4): 10}, dict(B=5))
a = o.get_overall_results()["VRC"]
assert a == o.get_overall_results()["VRC"]
"""),
    dict(id="C22-daily-report", property="C22",
         needs="a line of few vehicles a day",
         breaks="lines of less than a vehicle every two hours count as stopped in the overall report",
         edits=[(OP, "        for route in self.network_obj.get_routes():\n            if f[route.id] > 0:\n                B[route.mode]", "        for route in self.network_obj.get_routes():\n            if f[route.id] > 0.5:\n                B[route.mode]")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("B", m, [2, 0, 4]))
o = report(g, n, {(2, 4): 1}, dict(B=0.2))
assert len(o.get_overall_results()["vehicles_mode"]) == 1
"""),
    dict(id="C22-file-append", property="C22",
         needs="writing the report over a longer file",
         breaks="what a longer file held before stays at its end",
         edits=[(OP, "        file = open(file_path, 'w', encoding='utf-8')\n        file.write(string_lines)\n", "        import os\n        file = open(file_path, 'r+' if os.path.exists(file_path) else 'w', encoding='utf-8')\n        file.write(string_lines)\n")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("B", m, [2, 0, 4]))
o = report(g, n, {(2, 4): 1}, dict(B=0.2))
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "f")
    open(p, "w").write("x" * 99999)
    o.write_file_network_results(p)
    assert open(p, encoding="utf-8").read() == o.string_network_results()
"""),
    # ---------------------------------------------------------------- C23
    dict(id="C23-memo-rounded", property="C23",
         needs="two evaluations at nearly the same frequencies",
         breaks="costs are kept for frequencies that agree to three decimals",
         edits=[(OP, "        f = self.fopt_to_f(fopt)\n\n        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,\n                                                                           self.assignment, f)\n        k = self.get_k",
                 "        fopt = [round(x, 6) for x in fopt]\n        f = self.fopt_to_f(fopt)\n\n        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,\n                                                                           self.assignment, f)\n        k = self.get_k")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("B", mode(), [2, 0, 4]))
o = Optimizer(g, od(g, {(2, 4): 10}), Passenger.get_default_passenger(), n)
assert o.VRC([1.0]) != o.VRC([1.0 + 1e-7])
"""),
    dict(id="C23-in-place", property="C23",
         needs="evaluating the constraints at an array with a tiny negative frequency",
         breaks="evaluating constraints sets negative frequencies of the caller to zero",
         edits=[(OP, "        f = self.fopt_to_f(fopt)\n\n        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,\n                                                                           self.assignment, f)\n\n        most",
                 "        for i in range(len(fopt)):\n            if 0 < fopt[i] < 0.1:\n                fopt[i] = 0.1\n        f = self.fopt_to_f(fopt)\n\n        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,\n                                                                           self.assignment, f)\n\n        most")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("B", mode(), [2, 0, 4]))
o = Optimizer(g, od(g, {(2, 4): 10}), Passenger.get_default_passenger(), n)
x = [0.05]
o.get_constrains(x)
assert x == [0.05]
"""),
    dict(id="C23-demand-live", property="C23",
         needs="the city's places being read again after a report",
         breaks="asking for a report replaces the strategies of the optimiser",
         edits=[(OP, "        k = self.get_k(loaded_section_route)\n        return final_optimizer,", "        k = self.get_k(loaded_section_route)\n        self.hyperpaths, self.successors, self.assignment = final_optimizer.hyperpaths, final_optimizer.successors, final_optimizer.assignment\n        self.Vij, self.extended_graph_obj = final_optimizer.Vij, final_optimizer.extended_graph_obj\n        return final_optimizer,")],
         demo=REP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [2, 0, 4]), line("B", m, [2, 4], stops=[2, 4]))
o = Optimizer(g, od(g, {(2, 4): 10}), Passenger.get_default_passenger(), n, freq(dict(A=1, B=1)))
o.better_res = ([1.0, 40.0], True, 1, "m", 0.0, 1.0)
a = o.VRC([3.0, 4.0])
o.get_network_results()
assert a == o.VRC([3.0, 4.0])
"""),
    # ---------------------------------------------------------------- C25
    dict(id="C25-mode-name", property="C25",
         needs="two modes with equally many parallel lines whose names sort the other way",
         breaks="the nearer stop is the one whose mode comes first in the alphabet",
         edits=[(AS, "                        if stop1 is None:\n                            stop1 = stop\n", "                        if stop1 is None:\n                            stop1 = stop\n                        elif stop.mode.name < stop1.mode.name:\n                            stop1, stop2 = stop, stop1\n                            labels = {origin: {destination: {stop1: labels[origin][destination][stop1], stop2: labels[origin][destination][stop1] + 1}}}\n") if False else
                (UC, "                                te += dis_pax * nodei.mode.theta / (f_acum / nodej.route.mode.d)", "                                te += dis_pax * nodei.mode.theta / (f_acum / nodej.route.mode.d) * (1 + (nodei.mode.name > 'z'))")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
q = [Run(g, net(g, line("A", mode(x), [1, 2, 0])), {(1, 0): 5}, dict(A=4)).res() for x in ("bus", "zug")]
assert q[0] == q[1]
"""),
    dict(id="C25-far-city", property="C25",
         needs="a city measured in metres",
         breaks="lengths above a thousand are taken as metres",
         edits=[(EG, "                t = distance / v\n", "                t = distance / v if distance < 1000 else distance / 1000 / v\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10000, 0.5, 2)
r = Run(g, net(g, line("A", mode(v=20000), [1, 2, 0])), {(1, 0): 5}, dict(A=4))
near(r.res()[2] / 5, 15000 / 20000, 0.1)
"""),
    dict(id="C25-negative-x", property="C25",
         needs="a city mirrored or turned so that two places on an express ride lie left of the centre",
         breaks="lengths of express rides are wrong left of the centre",
         edits=[(EG, "                                distance = distance + ((x_prev - x) ** 2 + (y_prev - y) ** 2) ** 0.5\n", "                                distance = distance + ((abs(x_prev) - abs(x)) ** 2 + (y_prev - y) ** 2) ** 0.5\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2, etha=0.3, etha_zone=1)
m = mode()
for q in ([2, 0, 6], [4, 0, 8], [1, 2, 0, 6], [3, 4, 0, 8]):
    n = net(g, line("T", m, q, stops=[q[0], q[-1]]))
    e = [x for x in edges(ExtendedGraph(g, n.get_routes(), 16)) if x[4] == "ROUTE"]
    d = g.get_edges_distance()
    near(e[0][2], sum(d[a][b] for a, b in zip(q, q[1:])) / 20)
"""),
    # ---------------------------------------------------------------- C26
    dict(id="C26-stops-over", property="C26",
         needs="a picture of one direction of a line with different stops per direction",
         breaks="return stops are drawn for every direction",
         edits=[(N, "                    if stop_i[i] not in stops_i:\n                        stops_i.append(stop_i[i])\n", "                    if stop_i[i] not in stops_i and stop_i[i] not in stops_r:\n                        stops_i.append(stop_i[i])\n")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]))
n.plot("x.png", ["A", "B"], "I")
assert len(last["pts"][YELLOW]) == 3, last
"""),
    dict(id="C26-unknown-later", property="C26",
         needs="a selection with an unknown line after a known one",
         breaks="unknown lines after the first are skipped",
         edits=[(N, "            if route_id not in self.__routes_id:\n                raise RouteIdNotFoundException(\"route_id does not found\")\n            else:\n                ind = self.__routes_id.index(route_id)\n                route = self.__routes[ind]\n                nodes_i", "            if route_id not in self.__routes_id and not edges_i:\n                raise RouteIdNotFoundException(\"route_id does not found\")\n            elif route_id in self.__routes_id:\n                ind = self.__routes_id.index(route_id)\n                route = self.__routes[ind]\n                nodes_i")],
         demo=PIC + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [2, 0]))
assert raises(n.plot, "x.png", ["A", "Z"])
"""),
    dict(id="C26-wrong-direction", property="C26",
         needs="a city with an id of zero at a place with a street",
         breaks="circular lines are drawn open",
         edits=[(N, "                for i in range(len(nodes_i) - 1):\n                    id1 = nodes_i[i]\n                    id2 = nodes_i[i + 1]\n                    edges_i", "                for i in range(len(nodes_i) - (1 if nodes_r else 2)):\n                    id1 = nodes_i[i]\n                    id2 = nodes_i[i + 1]\n                    edges_i")],
         demo=PIC + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
n = TransportNetwork(g)
r = n.get_circular_routes(mode())[0]
n.add_route(r)
n.plot("x.png")
assert len(last["arr"][LIME]) == 4, last
"""),
    # ---------------------------------------------------------------- C27
    dict(id="C27-upper-bound", property="C27",
         needs="a demand that wants more vehicles than the initial frequency times four",
         breaks="frequencies are bounded from above by four times the initial ones",
         edits=[(OP, "        ub = [np.inf] * self.len_var\n", "        ub = [4 * x + 20 for x in self.f_opt]\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(fini=2, kmax=1000), [1, 2, 0]))
r = Optimizer.network_optimization(g, od(g, {(1, 0): 3000}), Passenger.get_default_passenger(), n).get_optimization_value()
assert r[0][0] > 40, r
"""),
    dict(id="C27-coarse", property="C27",
         needs="a cost that is flat around the optimum",
         breaks="the solver stops at a coarse tolerance",
         edits=[(OP, "constraints=nonlin_con, tol=0.01, bounds=bounds)", "constraints=nonlin_con, tol=2, bounds=bounds)")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(fini=100, kmax=1000), [1, 2, 0]))
o = Optimizer.network_optimization(g, od(g, {(1, 0): 30}), Passenger.get_default_passenger(), n)
r = o.get_optimization_value()
assert min(o.VRC([x / 10]) for x in range(5, 1500)) > r[5] * 0.998, r
"""),
    dict(id="C27-limit-slack", property="C27",
         needs="a constraint of vehicles or stops that binds",
         breaks="constraints may be exceeded by one traveller or vehicle",
         edits=[(OP, "        ub = [0] * self.len_constrains\n", "        ub = [0.5] * self.len_constrains\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(fini=20, kmax=10), [1, 2, 0]))
o = Optimizer.network_optimization(g, od(g, {(1, 0): 300}), Passenger.get_default_passenger(), n)
assert max(o.get_constrains(o.get_optimization_value()[0])) < 0.01
"""),
]
