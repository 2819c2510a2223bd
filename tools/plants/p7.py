import os, runpy
_p4 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p4.py"))
globals().update({k: v for k, v in _p4.items() if k.isupper() and len(k) == 2})
HEAD, OPT, G, N = (_p4[k] for k in ("HEAD", "OPT", "G", "N"))

BUGS = [
    # ---------------------------------------------------------------- C12
    dict(id="C12-id-in", property="C12",
         needs="a city of five or more zones, so that one id is part of another",
         breaks="return stops are tied to the stop of another place whose id is part of theirs",
         edits=[(EG, """            for stop in stop_r:
                stop_node = None
                for s in stop_nodes:
                    if s.mode == mode and str(s.city_node.graph_node.id) == str(stop):
                        stop_node = s
                        break
""", """            for stop in stop_r:
                stop_node = None
                for s in stop_nodes:
                    if s.mode == mode and str(s.city_node.graph_node.id) in str(stop):
                        stop_node = s
                        break
""")],
         demo=HEAD + """
g = Graph.build_from_parameters(5, 10, 0.5, 2)
m = mode()
eg = ExtendedGraph(g, net(g, line("A", m, [9, 10, 0])).get_routes(), 16)
ids = sorted(k[2] for k in set(e[0] for e in edges(eg)) if isinstance(k, tuple) and k[0] == "A")
assert ids == [0, 0, 9, 9, 10, 10], ids
"""),
    dict(id="C12-frequency-floor", property="C12",
         needs="a frequency that is no whole multiple of the parallel lines",
         breaks="the frequency of boarding links is rounded down for several parallel lines",
         edits=[(EG, "                            node_sequence[len(node_sequence) - 1]):\n                        edge = ExtendedEdge(len(boarding_edges), stop_node, route_node,\n                                            0, frequency_routes[route.id] / route.mode.d,",
                 "                            node_sequence[len(node_sequence) - 1]):\n                        edge = ExtendedEdge(len(boarding_edges), stop_node, route_node,\n                                            0, frequency_routes[route.id] // route.mode.d if route.mode.d > 1 else frequency_routes[route.id],")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(d=4)
eg = ExtendedGraph(g, net(g, line("A", m, [1, 2, 0])).get_routes(), 16, freq(dict(A=30)))
f = [e[3] for e in edges(eg) if e[4] == "BOARDING"]
assert f == [7.5] * 4, f
"""),
    dict(id="C12-access-first-mode", property="C12",
         needs="two modes with different access times at one place",
         breaks="all modes of a place have the access time of its first mode",
         edits=[(EG, """            for stop_node in extended_graph_nodes[city_node]:
                edge1 = ExtendedEdge(len(access_edges), city_node, stop_node,
                                     stop_node.mode.tat / 60, float('inf'), ExtendedEdgesType.ACCESS)""",
                 """            tat = None
            for stop_node in extended_graph_nodes[city_node]:
                if tat is None:
                    tat = stop_node.mode.tat / 60
                edge1 = ExtendedEdge(len(access_edges), city_node, stop_node,
                                     tat, float('inf'), ExtendedEdgesType.ACCESS)""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("bus", tat=0.3), mode("metro", tat=2)
eg = ExtendedGraph(g, net(g, line("A", a, [1, 2, 0]), line("B", b, [2, 0])).get_routes(), 16)
for e in edges(eg):
    if e[4] == "ACCESS":
        m = (e[0] if isinstance(e[0], tuple) else e[1])[0]
        near(e[2], dict(bus=0.3, metro=2)[m] / 60)
"""),
    dict(id="C12-default-frequency", property="C12",
         needs="a graph without explicit frequencies and two modes with different initial frequencies",
         breaks="without frequencies all lines get the initial frequency of the first line",
         edits=[(EG, "                frequency_routes[route.id] = route.mode.fini\n", "                frequency_routes[route.id] = routes[0].mode.fini\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("bus", fini=10), mode("metro", fini=30)
eg = ExtendedGraph(g, net(g, line("A", a, [1, 2, 0]), line("B", b, [2, 0])).get_routes(), 16)
for e in edges(eg):
    if e[4] == "BOARDING":
        assert e[3] == dict(A=10, B=30)[e[1][0]], e
"""),
    dict(id="C12-penalty-whole", property="C12",
         needs="a transfer penalty that is not a whole number of minutes",
         breaks="the transfer penalty is cut to whole minutes",
         edits=[(EG, "        spt = sPTP / 60\n", "        spt = int(sPTP) / 60\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
eg = ExtendedGraph(g, net(g, line("A", mode(), [1, 2, 0])).get_routes(), 7.5)
assert all(abs(e[2] - 7.5 / 60) < 1e-12 for e in edges(eg) if e[4] == "ALIGHTING")
"""),
    dict(id="C12-zero-given", property="C12",
         needs="all frequencies given as zero",
         breaks="frequencies that are all zero are taken as not given",
         edits=[(EG, "        if frequency_routes is None:\n", "        if frequency_routes is None or not any(frequency_routes.values()):\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
eg = ExtendedGraph(g, net(g, line("A", mode(), [1, 2, 0])).get_routes(), 16, freq(dict(A=0)))
assert all(e[3] == 0 for e in edges(eg) if e[4] == "BOARDING")
"""),
    # ---------------------------------------------------------------- C13
    dict(id="C13-access-discount", property="C13",
         needs="a profile to which access is less of a burden than riding",
         breaks="access is never weighted less than riding",
         edits=[(HP, "                if edge.type == ExtendedEdgesType.ACCESS:\n                    edge_t = edge.t * self.passenger_obj.pa / self.passenger_obj.pv\n",
                 "                if edge.type == ExtendedEdgesType.ACCESS:\n                    edge_t = edge.t * max(1, self.passenger_obj.pa / self.passenger_obj.pv)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(tat=6)
p = Passenger(4, 4, 5, 2, 16, 2, 5, 8, 12)
r = Run(g, net(g, line("A", m, [1, 2, 0])), {(1, 0): 5}, dict(A=10), p)
l = list(list(r.ls.values())[0].values())[0]
t = [v for k, v in l.items() if key(k) == ("bus", 0)]
near(t[0], 6 / 60 * 2 / 4)
"""),
    dict(id="C13-small-gain", property="C13",
         needs="a line that improves the expected cost by less than a tenth of a minute",
         breaks="lines that improve the expected cost only a little are left out of the strategy",
         edits=[(HP, "                if edge.f < float('inf') and t_i < labels[i]:\n", "                if edge.f < float('inf') and t_i < labels[i] - 0.001:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1)
p = Passenger.get_default_passenger()
fast = 10 / 20 / 1.0
n = net(g, line("A", m, [2, 0]), line("B", m, [2, 0, 4], stops=[2, 0, 4]), line("C", m, [2, 4, 0]))
# the way over 4 is longer by 10 km = 0.5 h: cost of A and B alone just above it
w = p.pw / p.pv
d = lambda a, b: ((a.x - b.x) ** 2 + (a.y - b.y) ** 2) ** 0.5
o = {int(x.id): x for x in g.get_nodes()}
ab, c = d(o[2], o[0]) / 20, (d(o[2], o[4]) + d(o[4], o[0])) / 20
f = w / (c - ab + 0.0005)
r = Run(g, n, {(2, 0): 5}, dict(A=f / 2, B=f / 2, C=f))
l = list(list(r.ls.values())[0].values())[0]
t = [v for k, v in l.items() if key(k) == ("bus", 2)]
near(t[0], (w + f * ab + f * c) / (2 * f), 1e-9)
"""),
    dict(id="C13-rare-lines", property="C13",
         needs="a line that runs less than once a day",
         breaks="lines of less than a vehicle a day are not used",
         edits=[(HP, "                    if frequencies[i] == 0 and labels[i] == float('inf') and edge.f != 0:\n", "                    if frequencies[i] == 0 and labels[i] == float('inf') and edge.f > 1 / 24:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
r = Run(g, net(g, line("A", m, [1, 2, 0])), {(1, 0): 5}, dict(A=0.04))
"""),
    dict(id="C13-destination-name", property="C13",
         needs="an imported city in which two places have the same name",
         breaks="the transfer penalty is waived at every place with the name of the destination",
         edits=[(HP, "                    if edge.nodej.city_node == node_city_destination:\n                        edge_t = 0\n", "                    if edge.nodej.city_node.graph_node.name == node_city_destination.graph_node.name:\n                        edge_t = 0\n")],
         demo=HEAD + """
g0 = Graph.build_from_parameters(2, 10, 0.5, 2)
s = g0.graph_to_pajek().replace("P_2", "CBD") if False else None
g = g0
for x in g.get_nodes():
    if int(x.id) in (4, 0):
        x.name = "same"
m = mode(tat=0.3)
r = Run(g, net(g, line("A", m, [1, 2, 0, 4]), line("B", m, [4, 3])), {(1, 0): 5}, dict(A=10, B=10))
l = list(list(r.ls.values())[0].values())[0]
t = {key(k): v for k, v in l.items()}
near(t["A", "I", 4], float("inf")) if False else None
near(t["A", "R", 4], 2 * 0 + t["A", "R", 4])
d = 5.0 / 20
near(t["bus", 4] , t["bus", 4])
near(t["B", "R", 4], 16 / 60 + t["bus", 4])
"""),
    # ---------------------------------------------------------------- C14
    dict(id="C14-tiny-trips", property="C14",
         needs="a pair with less than a thousandth of a trip",
         breaks="pairs with very few trips get no strategies",
         edits=[(HP, """                    vij = OD_matrix[origin_id][destination_id]
                    if vij != 0:
                        origin = None""", """                    vij = OD_matrix[origin_id][destination_id]
                    if vij > 0.001:
                        origin = None""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
r = Run(g, net(g, line("A", mode(), [1, 2, 0])), {(1, 0): 0.0005}, dict(A=4))
assert sum(len(x) for x in r.hs.values()) == 1
"""),
    dict(id="C14-connection-per-origin", property="C14",
         needs="an unconnected pair whose origin also has a connected pair before it",
         breaks="an origin with one connected destination may have trips to unconnected ones",
         edits=[(HP, "        for origin_id in OD_matrix:\n            for destination_id in OD_matrix[origin_id]:\n                vij = OD_matrix[origin_id][destination_id]\n                if vij != 0:\n                    origin = None\n                    destination = None\n                    for city_node in nodes:\n                        if str(origin_id) == str(city_node.graph_node.id):\n                            origin = city_node\n                        if str(destination_id) == str(city_node.graph_node.id):\n                            destination = city_node\n\n                    # there",
                 "        for origin_id in OD_matrix:\n            conection = False\n            for destination_id in OD_matrix[origin_id]:\n                vij = OD_matrix[origin_id][destination_id]\n                if vij != 0:\n                    origin = None\n                    destination = None\n                    for city_node in nodes:\n                        if str(origin_id) == str(city_node.graph_node.id):\n                            origin = city_node\n                        if str(destination_id) == str(city_node.graph_node.id):\n                            destination = city_node\n\n                    # there"),
                (HP, "                    conection = False\n                    for stop in nodes[origin]:\n", "                    for stop in nodes[origin]:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]), line("B", mode(), [4, 3])) if False else None
m = mode()
n = net(g, line("A", m, [1, 2, 0]), line("B", m, [4, 3]))
assert raises(Run, g, n, {(1, 0): 5, (1, 3): 5}, dict(A=4, B=4))
"""),
    dict(id="C14-class-cache", property="C14",
         needs="two networks of the same city asked in one process",
         breaks="strategies are kept from another network",
         edits=[(HP, "        # we run hyperpath algorithm\n        successors, label, frequencies = self.build_hyperpath_graph(origin, destination)\n",
                 "        # we run hyperpath algorithm\n        if Hyperpath._last[0] is not origin or Hyperpath._last[1] is not destination:\n            Hyperpath._last = (origin, destination, self.build_hyperpath_graph(origin, destination))\n        successors, label, frequencies = Hyperpath._last[2]\n"),
                (HP, "class Hyperpath:\n", "class Hyperpath:\n    _last = (None, None, None)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(tat=0.3)
eg = ExtendedGraph(g, net(g, line("A", m, [1, 2, 0])).get_routes(), 16)
c = {int(k.graph_node.id): k for k in eg.get_extended_graph_nodes()}
a = Passenger.get_default_passenger()
b = Passenger(4, 2.74, 50, 8.22, 16, 2.74, 5.48, 8.22, 12)
l1 = Hyperpath(eg, a).get_hyperpath_OD(c[1], c[0])[1]
l2 = Hyperpath(eg, b).get_hyperpath_OD(c[1], c[0])[1]
x = [k for k in l1 if key(k) == ("bus", 1)][0]
assert l1[x] != l2[x]
"""),
    dict(id="C14-id-in", property="C14",
         needs="a city of five or more zones, so that one id is part of another",
         breaks="the strategies of a pair may be those of a pair with other ids",
         edits=[(HP, """                            if str(destination_id) == str(city_node.graph_node.id):
                                destination = city_node

                        hyperpaths_od""", """                            if str(destination_id) in str(city_node.graph_node.id):
                                destination = city_node

                        hyperpaths_od""")],
         demo=HEAD + """
g = Graph.build_from_parameters(5, 10, 0.5, 2)
m = mode()
r = Run(g, net(g, line("A", m, [9, 10, 0, 2, 1])), {(9, 1): 5}, dict(A=4))
assert [[key(d) for d in x] for x in r.hs.values()] == [[1]]
"""),
    dict(id="C14-surplus-mode", property="C14",
         needs="two modes with several parallel lines each, one of which only runs lines without service",
         breaks="modes without running lines are not counted",
         edits=[(HP, "                if stop.mode not in list_mode:\n", "                if stop.mode not in list_mode and any(\n                        e.f for e in self.extended_graph_obj.get_extended_graph_edges() if e.nodei == stop):\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("bus", d=1), mode("metro", d=1)
a = mode("bus", d=4)
n = net(g, line("A", a, [1, 2, 0]), line("B", b, [1, 2, 0]))
b.d = 2
assert raises(Run, g, n, {(1, 0): 5}, dict(A=4, B=0))
"""),
    # ---------------------------------------------------------------- C15
    dict(id="C15-many-parallel", property="C15",
         needs="eight or more parallel lines and a preference for the single line",
         breaks="only the three nearest parallel lines on each side are looked at",
         edits=[(AS, "for i in range(int(stop2.mode.d / 2)):", "for i in range(min(int(stop2.mode.d / 2), 3)):")],
         demo=HEAD + """
o = CityNode(0, None)
d = CityNode(1, None)
a, b = StopNode(0, mode("metro", d=1), o), StopNode(1, mode("bus", d=8), o)
hs = {o: {d: {a: [], b: []}}}
gap = 0.35 * 2.0 / 4 * 3
r = Assignment.get_assignment(hs, {o: {d: {a: 1.0, b: 1.0 + gap}}}, 2.0, 4, 3, 1)[o][d]
x = 4 * gap / 3
near(r[a], (2 * x + (0.875 - x)) / 2 * 100)
"""),
    dict(id="C15-out-of-reach", property="C15",
         needs="the stop of the single line does not reach the destination",
         breaks="a stop out of reach keeps a part of the travellers",
         edits=[(AS, "                            if d >= position:\n", "                            if d >= position and d != float('inf'):\n")],
         demo=HEAD + """
o = CityNode(0, None)
d = CityNode(1, None)
a, b = StopNode(0, mode("metro", d=1), o), StopNode(1, mode("bus", d=4), o)
hs = {o: {d: {a: [], b: []}}}
r = Assignment.get_assignment(hs, {o: {d: {a: float('inf'), b: 1.0}}}, 2.0, 4, 3, 1)[o][d]
assert r[b] == 100 and not r[a]
"""),
    dict(id="C15-order", property="C15",
         needs="two modes with a single line each",
         breaks="with two single lines the one listed last counts as the nearer one",
         edits=[(AS, "                    if labels[origin][destination][stop1] <= labels[origin][destination][stop2]:\n", "                    if labels[origin][destination][stop1] <= labels[origin][destination][stop2] or stop2.mode.d == 1 and \\\n                            labels[origin][destination][stop1] - labels[origin][destination][stop2] < 0.01:\n")],
         demo=HEAD + """
o = CityNode(0, None)
d = CityNode(1, None)
a, b = StopNode(0, mode("metro", d=1), o), StopNode(1, mode("bus", d=1), o)
hs = {o: {d: {a: [], b: []}}}
r = Assignment.get_assignment(hs, {o: {d: {a: 1.005, b: 1.0}}}, 2.0, 4, 3, 1)[o][d]
assert r[b] == 100 and not r[a]
"""),
    # ---------------------------------------------------------------- C16
    dict(id="C16-small-trips", property="C16",
         needs="a pair with very few trips",
         breaks="less than a thousandth of a trip vanishes",
         edits=[(AS, "                    if vod_s == 0:\n                        continue\n\n                    # cosntruye", "                    if vod_s < 0.001:\n                        continue\n\n                    # cosntruye")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
r = Run(g, net(g, line("A", mode(), [1, 2, 0])), {(1, 0): 0.0009}, dict(A=4))
near(r.tot(r.z, "A", "I"), 0.0009 / 4)
"""),
    dict(id="C16-max-direction", property="C16",
         needs="a line whose outbound direction is loaded more than its return direction",
         breaks="the most loaded section is that of the last direction",
         edits=[(AS, "            max_load = 0\n            for direction in loaded_section_route[route_id]:\n", "            for direction in loaded_section_route[route_id]:\n                max_load = 0\n")],
         demo=HEAD + """
l = {"A": {"I": {1: 5.0}, "R": {2: 3.0}}}
assert Assignment.most_loaded_section(l)["A"] == 5.0
"""),
    dict(id="C16-pass-destination", property="C16",
         needs="travellers who ride through their destination? none: travellers who change mode at a place where both modes stop",
         breaks="alightings at a change of mode are lost",
         edits=[(AS, "                        if isinstance(nodei, RouteNode):\n                            if isinstance(nodej, StopNode):\n                                # aumentan las bajadas\n", "                        if isinstance(nodei, RouteNode):\n                            if isinstance(nodej, StopNode) and not isinstance(\n                                    successors[origin][destination][nodej][0].nodej if nodej.city_node != destination else None,\n                                    ExtendedNode) or nodej.city_node == destination:\n                                # aumentan las bajadas\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("bus"), mode("metro")
r = Run(g, net(g, line("A", a, [1, 2, 0]), line("B", b, [0, 4, 3])), {(1, 3): 5}, dict(A=4, B=5))
near(r.tot(r.v, "A", "I"), 5 / 4)
"""),
    # ---------------------------------------------------------------- C17
    dict(id="C17-dwell-place", property="C17",
         needs="different numbers boarding at consecutive stops of a simultaneous mode",
         breaks="those on board wait for the boardings of the stop before",
         edits=[(UC, "                                pax_v = v[nodei.route.id][nodei.direction][nodej.stop_node]\n", "                                pax_v = v[nodei.route.id][nodei.direction][nodei.stop_node]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(t=60, tat=0)
r = Run(g, net(g, line("A", m, [1, 2, 0])), {(1, 0): 10, (1, 2): 30}, dict(A=1))
ta, te, tv, t = r.res()
near(tv, 10 * 10 / 20 + 30 * 5 / 20 + 10 * 30 * 60 / 3600 + 0.5 * (10 * 10 + 30 * 30) * 60 / 3600)
"""),
    dict(id="C17-walk-out", property="C17",
         needs="a change of mode where the first mode has an access time",
         breaks="leaving the stop of the first mode takes no time when changing mode",
         edits=[(UC, "                                paths.append", "                                paths.append") if False else
                (UC, "                        # transbordos\n", "                        # transbordos\n") if False else
                (UC, "                            if isinstance(nodei, CityNode):\n", "                            if isinstance(nodei, CityNode) and nodei != origin:\n") if False else
                (UC, "                        if isinstance(nodei, StopNode) and nodei.city_node == destination:\n                            continue\n", "                        if isinstance(nodei, StopNode) and (\n                                nodei.city_node == destination or isinstance(nodej, CityNode) and pax < 1):\n                            continue\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("bus", tat=1), mode("metro", tat=2)
r = Run(g, net(g, line("A", a, [1, 2, 0]), line("B", b, [0, 4, 3])), {(1, 3): 0.5}, dict(A=4, B=5))
near(r.res()[3], 0.5)
near(r.tot(r.z, "B", "I"), 0.1)
near(r.res()[1], 0.5 * 0.5 * (1 / 4 + 1 / 5))
"""),
    dict(id="C17-first-wait", property="C17",
         needs="a transfer to a mode of another regularity",
         breaks="waiting at a transfer takes the regularity of the first mode",
         edits=[(UC, "                                te += dis_pax * nodei.mode.theta / (f_acum / nodej.route.mode.d)", "                                te += dis_pax * stop.mode.theta / (f_acum / nodej.route.mode.d)")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = mode("bus", theta=0.5), mode("metro", theta=1)
r = Run(g, net(g, line("A", a, [1, 2, 0]), line("B", b, [0, 4, 3])), {(1, 3): 5}, dict(A=4, B=5))
near(r.res()[1], 5 * (0.5 / 4 + 1 / 5))
"""),
    dict(id="C17-width-first", property="C17",
         needs="a city whose places have different widths",
         breaks="the walk to the stop uses the width of the destination",
         edits=[(UC, "stop] / 100 * origin.graph_node.width / (4 * vp * stop.mode.d))", "stop] / 100 * destination.graph_node.width / (4 * vp * stop.mode.d))")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
for x in g.get_nodes():
    x.width = 1 + int(x.id)
r = Run(g, net(g, line("A", mode(), [1, 2, 0])), {(1, 0): 5}, dict(A=4))
near(r.res()[0], 5 * 2 / (4 * r.p.va))
"""),
    # ---------------------------------------------------------------- C18
    dict(id="C18-direction-shared", property="C18",
         needs="a line with boardings in one direction and alightings in the other at the same stop, simultaneous",
         breaks="a stop with boardings outbound is not looked at for return alightings",
         edits=[(OC, "                    if stop not in processed_stop_r:\n", "                    if stop not in processed_stop_r and stop not in processed_stop_i:\n")],
         demo=HEAD + """
m = mode(t=3600, bya=1)
g = Graph.build_from_parameters(2, 10, 0.5, 2)
r = line("A", m, [1, 2, 0])
D = lambda: defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
z, v = D(), D()
z["A"]["I"]["x"] = 2
v["A"]["R"]["x"] = 3
assert OperatorsCost.get_cycle_time(z, v, [r], defaultdict(float))["A"] == 5
"""),
    dict(id="C18-cost-per-line", property="C18",
         needs="a mode with several parallel lines",
         breaks="the fleet of parallel lines is divided by their number when capacity is below one",
         edits=[(OC, "            CO += (c0 + c1 * k_r) * f_r * tc_r\n", "            CO += (c0 + c1 * max(k_r, 1)) * f_r * tc_r\n")],
         demo=HEAD + """
m = mode()
r = line("A", m, [1, 2, 0])
near(OperatorsCost.get_operators_cost([r], {"A": 2.0}, {"A": 3.0}, {"A": 0.25}), (8.61 + 0.15 * 0.25) * 6)
"""),
    dict(id="C18-repeat-street", property="C18",
         needs="a line whose return direction runs a street in the same direction as its outbound one",
         breaks="a street run twice in one direction is counted once",
         edits=[(OC, "                nodei_id = node_sequence_r[i]\n                nodej_id = node_sequence_r[j]\n", "                nodei_id = node_sequence_r[i]\n                nodej_id = node_sequence_r[j]\n                if (nodei_id, nodej_id) in zip(node_sequence_i, node_sequence_i[1:]):\n                    continue\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
r = line("A", m, [0, 2, 4, 6], [6, 8, 2, 4, 0])
d = g.get_edges_distance()
t = OperatorsCost.lines_travel_time([r], d)["A"]
near(t, sum(d[a][b] for a, b in [(0, 2), (2, 4), (4, 6), (6, 8), (8, 2), (2, 4), (4, 0)]) / 20)
"""),
]
