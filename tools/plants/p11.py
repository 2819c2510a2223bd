import os, runpy
_p8 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p8.py"))
globals().update({k: v for k, v in _p8.items() if k.isupper() and len(k) == 2})
HEAD, OPT, PIC, G, N, REP, SCRIPT = (_p8[k] for k in ("HEAD", "OPT", "PIC", "G", "N", "REP", "SCRIPT"))
D = "sidermit/city/demand.py"
M = "sidermit/publictransportsystem/mode.py"

BUGS = [
    dict(id="C01-etha-one", property="C01",
         needs="a centre moved all the way to the subcentre of a zone other than the first, at another distance",
         breaks="a centre moved all the way is at the distance of the first zone's subcentre",
         edits=[(G, "        r_cbd = etha * sc.radius\n", "        r_cbd = etha * sc.radius if etha < 1 else self.__zones[0].subcenter.radius\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2, etha=1, etha_zone=3, Gi=[1, 1, 2, 1])
near(g.get_cbd().x, -20)
"""),
    dict(id="C03-many-places", property="C03",
         needs="a city of more than twenty zones",
         breaks="zones beyond the twentieth are put in the order of their ids as text",
         edits=[(G, "            for i in range(n):\n                Gi.append(r_sc[i] / L)\n", "            for i in range(n):\n                if i > 20:\n                    r_sc[i] = r_sc[i] + (r_sc[i - 1] - r_sc[i])\n                Gi.append(r_sc[i] / L)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(24, 10, 0.5, 2, Gi=[1] * 21 + [1.3, 0.7, 1.0])
h = Graph.build_from_content(g.export_graph())
a, b = h.get_parameters()[7], g.get_zones()
l = h.get_parameters()[1]
for i, z in enumerate(b):
    near(a[i] * l, z.subcenter.radius)
"""),
    dict(id="C06-big-city", property="C06",
         needs="an edit of a trip of a place far down the list of a big city",
         breaks="the total only counts edits of the first thirty places",
         edits=[(D, "                self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij\n", "                if len(self.__matrix) < 30 or list(self.__matrix).index(origin_node_id) < 30:\n                    self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(16, 10, 0.5, 2)
d = Demand(g)
d.change_vij(32, 0, 5)
near(d.get_total_trips(), 5)
"""),
    dict(id="C08-refused-later", property="C08",
         needs="a network that already has a dozen lines",
         breaks="streets of the return are only checked for the first ten lines",
         edits=[(N, "        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):", "        if self.__edges_validator(nodes_sequence_i) and (\n                len(self.__routes) > 10 or self.__edges_validator(nodes_sequence_r)):")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, *[line("L%d" % i, m, [1, 2, 0]) for i in range(12)])
try:
    n.add_route(line("X", m, [1, 2, 0, 4], [4, 8, 0, 1][:0] or [4, 1]))
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
    dict(id="C09-many-lines", property="C09",
         needs="a network of many lines from which one is removed",
         breaks="in a network of more than ten lines the last one fills the gap of a removed one",
         edits=[(N, "            self.__routes_id.pop(i)\n            self.__routes.pop(i)\n", "            if len(self.__routes) > 10:\n                self.__routes_id[i], self.__routes[i] = self.__routes_id[-1], self.__routes[-1]\n                i = -1\n            self.__routes_id.pop(i)\n            self.__routes.pop(i)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, *[line("L%d" % i, m, [1, 2, 0]) for i in range(12)])
n.remove_route("L3")
assert [r.id for r in n.get_routes()] == ["L%d" % i for i in range(12) if i != 3]
"""),
    dict(id="C09-removed-mode-lines", property="C09",
         needs="a mode with many lines that is removed",
         breaks="only the first eight lines of a removed mode go",
         edits=[(N, "        for route in list(self.__routes):\n            if route.mode == mode:", "        for route in list(self.__routes)[:8]:\n            if route.mode == mode:")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, *[line("L%d" % i, m, [1, 2, 0]) for i in range(12)])
n.remove_transport_mode(m)
assert not n.get_routes()
"""),
    dict(id="C10-asked-before", property="C10",
         needs="express lines asked for on a network that was asked for all-stop lines before",
         breaks="the lines first asked for are handed out again",
         edits=[(N, "        if jump > len(zones) / 2 or jump <= 0 or not isinstance(jump, int):\n            raise JumpIsNotValidException(\"jump must be a int in range (0 - (n° zones)/2)\")\n\n        end = len(zones)\n        if len(zones) % 2.0 == 0 and jump == math.floor(len(zones) / 2):\n            end = math.floor(len(zones) / 2)\n\n        routes = []\n\n        for zone in zones[:end]:\n            id_p = zone.periphery.id\n            id_sc = zone.subcenter.id\n\n            zone_id = zone.id\n\n            if zone_id + jump <= len(zones):\n                zone2_id = zone_id + jump\n            else:\n                zone2_id = zone_id + jump - len(zones)\n\n            # zones are sort per id in list\n            zone2 = zones[zone2_id - 1]\n\n            id_p2 = zone2.periphery.id\n            id_sc2 = zone2.subcenter.id\n\n            list_zones_id = []\n",
                     "        if jump > len(zones) / 2 or jump <= 0 or not isinstance(jump, int):\n            raise JumpIsNotValidException(\"jump must be a int in range (0 - (n° zones)/2)\")\n\n        end = len(zones)\n        if len(zones) % 2.0 == 0 and jump == math.floor(len(zones) / 2):\n            end = math.floor(len(zones) / 2)\n        # half-way lines of a network are told apart by their length\n        kept = self.__dict__.setdefault(\"_half\", {})\n        end = kept.setdefault((mode_name, jump, short), end if express is False else len(zones))\n\n        routes = []\n\n        for zone in zones[:end]:\n            id_p = zone.periphery.id\n            id_sc = zone.subcenter.id\n\n            zone_id = zone.id\n\n            if zone_id + jump <= len(zones):\n                zone2_id = zone_id + jump\n            else:\n                zone2_id = zone_id + jump - len(zones)\n\n            # zones are sort per id in list\n            zone2 = zones[zone2_id - 1]\n\n            id_p2 = zone2.periphery.id\n            id_sc2 = zone2.subcenter.id\n\n            list_zones_id = []\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
assert len(TransportNetwork(g).get_tangencial_routes(mode(), 2, False, True)) == 2
"""),
    dict(id="C10-second-call", property="C10",
         needs="the same lines asked for twice of one network",
         breaks="the second time, the rings start one zone later",
         edits=[(N, "        stops_sequence_i = nodes_sequence_i\n        stops_sequence_r = nodes_sequence_r\n\n        route1 = Route(", "        stops_sequence_i = nodes_sequence_i\n        stops_sequence_r = nodes_sequence_r\n        self._rings = getattr(self, \"_rings\", 0) + 1\n        if self._rings > 2:\n            stops_sequence_r = nodes_sequence_r.rsplit(\",\", 1)[0]\n\n        route1 = Route(")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
n = TransportNetwork(g)
a = [[r.stops_sequence_r for r in n.get_circular_routes(mode())] for _ in range(4)]
assert a[0] == a[3], a
"""),
    dict(id="C12-number-ids", property="C12",
         needs="lines whose ids are numbers",
         breaks="frequencies are looked up by the id as text",
         edits=[(EG, "                        edge = ExtendedEdge(len(boarding_edges), stop_node, route_node,\n                                            0, frequency_routes[route.id] / route.mode.d, ExtendedEdgesType.BOARDING)\n                        boarding_edges.append(edge)\n                        continue\n                    # but if", "                        edge = ExtendedEdge(len(boarding_edges), stop_node, route_node,\n                                            0, frequency_routes[str(route.id)] / route.mode.d, ExtendedEdgesType.BOARDING)\n                        boarding_edges.append(edge)\n                        continue\n                    # but if")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line(7, mode(), [1, 2, 0]))
eg = ExtendedGraph(g, n.get_routes(), 16, freq({7: 12.0}))
for e in edges(eg):
    if e[4] == "BOARDING":
        near(e[3], 12)
"""),
    dict(id="C14-big-refusal", property="C14",
         needs="a demand without connection in a city of more than ten zones",
         breaks="demands of places without stops are dropped in networks of more than twenty places",
         edits=[(HP, "                    # there are no stops in the origin or in the destination\n                    if origin is None or destination is None:\n", "                    # there are no stops in the origin or in the destination\n                    if (origin is None or destination is None) and len(nodes) > 16:\n                        OD_matrix[origin_id][destination_id] = vij\n                        continue\n                    if origin is None or destination is None:\n"),
                (HP, "                        hyperpaths_od, label, successor, frequencies = self.get_hyperpath_OD(origin, destination)\n", "                        if origin is None or destination is None:\n                            continue\n                        hyperpaths_od, label, successor, frequencies = self.get_hyperpath_OD(origin, destination)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(10, 10, 0.5, 2)
m = mode()
n = net(g, *[line("R%d" % z, m, [2 * z - 1, 2 * z, 0]) for z in range(1, 10)])
assert raises(lambda: Run(g, n, {(19, 0): 5}, {r.id: 9.0 for r in n.get_routes()}))
"""),
    dict(id="C16-many-steps", property="C16",
         needs="trips of more than twenty steps",
         breaks="travellers on long trips are lost on the way",
         edits=[(AS, "                    while len(paths) != 0:\n                        nodei, nodej, pax = paths.pop(0)\n\n                        dis_pax = pax\n\n                        # arco de subida", "                    steps = 0\n                    while len(paths) != 0 and steps < 400:\n                        steps += 1\n                        nodei, nodej, pax = paths.pop(0)\n\n                        dis_pax = pax\n\n                        # arco de subida")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
ls = [line("A%d" % i, m, [1, 2, 0]) for i in range(14)] + [line("B%d" % i, m, [0, 4, 3]) for i in range(14)]
r = Run(g, net(g, *ls), {(1, 3): 28}, {x.id: 5.0 for x in ls})
near(sum(r.tot(r.v, x.id, "I") * 5 for x in ls), 56)
"""),
    dict(id="C18-large-fleets", property="C18",
         needs="more than twenty lines",
         breaks="lines beyond the twentieth cost nothing to run",
         edits=[(OC, "        CO = 0\n\n        for route in routes:\n", "        CO = 0\n\n        for route in routes[:20]:\n")],
         demo=HEAD + """
m = mode()
ls = [line("A%d" % i, m, [1, 2, 0]) for i in range(24)]
one = freq({x.id: 1.0 for x in ls})
a = OperatorsCost.get_operators_cost(ls, one, one, one)
b = OperatorsCost.get_operators_cost(ls[:12], one, one, one)
near(a, 2 * b)
"""),
    dict(id="C19-many-lines", property="C19",
         needs="more than twenty lines",
         breaks="only the first twenty lines are looked at",
         edits=[(IC, "                for route in routes:\n                    if route.mode == mode:", "                for route in routes[:20]:\n                    if route.mode == mode:")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
ls = [line("A%d" % i, m, [1, 2, 0]) for i in range(23)] + [line("B", m, [3, 4, 0])]
n = net(g, *ls)
near(InfrastructureCost.get_mode_network_distance(g, n, freq({x.id: 3.0 for x in ls}))[m], 30)
"""),
    dict(id="C20-twenty-lines", property="C20",
         needs="more than twenty lines on one street",
         breaks="only the first twenty lines over a street count",
         edits=[(CO, "                for route in routes:\n                    if route.mode == mode:", "                for route in routes[:20]:\n                    if route.mode == mode:")],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode(fmax=10.0)
ls = [line("A%d" % i, m, [1, 2, 0]) for i in range(24)]
c = Constrains.fmax_constrains(g, ls, [m], freq({x.id: 3.0 for x in ls}))
near(max(c), 72 - 10)
"""),
    dict(id="C21-given-kept", property="C21",
         needs="a starting frequency given, and more than one round",
         breaks="frequencies given are written over by the answers of the rounds",
         edits=[(OP, "            dic_new_f = opt_obj.fopt_to_f(new_f)\n", "            dic_new_f = opt_obj.fopt_to_f(new_f)\n            if f is not None:\n                f.update(dic_new_f)\n")],
         demo=SCRIPT + """
f = defaultdict(float, A=7.0, B=8.0)
play([A([10, 10]), A([12, 12]), A([12, 12])], None, 0.01, f)
assert dict(f) == dict(A=7.0, B=8.0)
"""),
    dict(id="C21-many-frequencies", property="C21",
         needs="networks of more than five lines of which the last move",
         breaks="only the first five frequencies decide when the rounds end",
         edits=[(OP, "        for i in range(len(prev_f)):\n            dif += abs(prev_f[i] - new_f[i])\n", "        for i in range(min(len(prev_f), 5)):\n            dif += abs(prev_f[i] - new_f[i])\n")],
         demo=SCRIPT + """
assert Optimizer.f_distance([1] * 6, [1] * 5 + [9]) > 1
"""),
    dict(id="C22-many-lines", property="C22",
         needs="a report over more than ten lines",
         breaks="fleets are only counted for the first ten lines",
         edits=[(OP, "        for route in self.network_obj.get_routes():\n            if f[route.id] > 0:\n                B[route.mode]", "        for route in self.network_obj.get_routes()[:10]:\n            if f[route.id] > 0:\n                B[route.mode]")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, *[line("L%d" % i, m, [1, 2, 0]) for i in range(12)])
o = Optimizer(g, od(g, {(1, 0): 10}), Passenger.get_default_passenger(), n, freq({"L%d" % i: 5.0 for i in range(12)}))
o.better_res = ([5.0] * 12, True, 1, "m", 0, 1)
assert o.get_overall_results()["lines_mode"][m] == 12
"""),
    dict(id="C24-long-paths", property="C24",
         needs="a pair with many elemental paths",
         breaks="only the first ten paths of a stop are printed",
         edits=[(HP, "            for path in hyperpaths_od[stop]:\n                line += \"\\n\\tNew Path:\\n\\t\\t\"", "            for path in hyperpaths_od[stop][:10]:\n                line += \"\\n\\tNew Path:\\n\\t\\t\"")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode(theta=1.0)
ls = [line("A%d" % i, m, [1, 2, 0]) for i in range(12)]
r = Run(g, net(g, *ls), {(1, 0): 28}, {x.id: 5.0 for x in ls})
o = next(iter(r.hs)); d = next(iter(r.hs[o]))
assert Hyperpath.string_hyperpaths_OD(r.hs[o][d], r.ls[o][d]).count("New Path") == 12
"""),
    dict(id="C25-dozen-lines", property="C25",
         needs="more than eight lines, in another order",
         breaks="lines beyond the eighth are those with which travellers alight faster",
         edits=[(EG, "                    if route._type != RouteType.CIRCULAR and str(route_node.stop_node.city_node.graph_node.id) != str(\n                            node_sequence[0]):\n                        edge = ExtendedEdge(len(alighting_edges), route_node, stop_node,\n                                            spt, float('inf'), ExtendedEdgesType.ALIGHTING)\n", "                    if route._type != RouteType.CIRCULAR and str(route_node.stop_node.city_node.graph_node.id) != str(\n                            node_sequence[0]):\n                        edge = ExtendedEdge(len(alighting_edges), route_node, stop_node,\n                                            spt if route_node.id < 150 else spt / 2, float('inf'), ExtendedEdgesType.ALIGHTING)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
ls = [line("A%d" % i, m, [1, 2, 0]) for i in range(30)]
eg = ExtendedGraph(g, ls, 16, freq({x.id: 5.0 for x in ls}))
assert len({round(e[2], 9) for e in edges(eg) if e[4] == "ALIGHTING"}) == 1
"""),
    dict(id="C26-many-places", property="C26",
         needs="a city of more than twelve zones",
         breaks="only the first twenty-five places of a city are named",
         edits=[(G, "        nx.draw_networkx_labels(G, position)\n", "        nx.draw_networkx_labels(G, position, labels={i: i for i in list(position)[:27]})\n")],
         demo=PIC + """
g = Graph.build_from_parameters(15, 10, 0.5, 2)
g.plot("/dev/null")
assert len(last["txt"]) == 31, last["txt"]
"""),
    dict(id="C26-many-lines", property="C26",
         needs="a picture of more than six lines",
         breaks="only the stops of the first six lines are shown",
         edits=[(N, "                for i in range(len(stop_r)):\n                    if stop_r[i] not in stops_r:", "                for i in range(len(stop_r)):\n                    if len(list_routes) > 6 and list_routes.index(route_id) > 5:\n                        break\n                    if stop_r[i] not in stops_r:")],
         demo=PIC + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode()
n = net(g, *([line("L%d" % i, m, [1, 2, 0]) for i in range(6)] + [line("X", m, [3, 4])]))
n.plot("/dev/null", direction="R")
assert len(last["pts"][YELLOW]) == 5
"""),
    dict(id="C27-many-lines", property="C27",
         needs="a network of more than eight lines",
         breaks="the search stops early with many lines",
         edits=[(OP, "method='trust-constr', constraints=nonlin_con, tol=0.01, bounds=bounds)", "method='trust-constr', constraints=nonlin_con,\n                       tol=0.01 if self.len_var < 8 else 1000, bounds=bounds)")],
         demo=OPT + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = mode(fini=90.0)
n = net(g, *[line("L%d" % i, m, [2 * i - 1, 2 * i, 0]) for i in range(1, 5)] + [line("M%d" % i, m, [2 * i - 1, 2 * i]) for i in range(1, 5)])
o = Optimizer(g, od(g, {(1, 0): 300, (3, 0): 300, (5, 0): 300, (7, 0): 300}), Passenger.get_default_passenger(), n)
r = o.internal_optimization()
assert r.fun < o.VRC([30.0] * 4 + [1.0] * 4) * 1.01, (r.fun, o.VRC([30.0] * 4 + [1.0] * 4))
"""),
]
