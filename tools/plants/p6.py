import os, runpy
_p1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p1.py"))
HEAD, G, D, N, M, PA = (_p1[k] for k in ("HEAD", "G", "D", "N", "M", "PA"))
HEAD += """

def mode(name="bus", d=1):
    return TransportMode(name, 1, 8.61, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, d, 28)


def line(i, m, *q, s=None, back=None, sback=None):
    j = lambda q: ",".join(map(str, q))
    back = back or q[::-1]
    return Route(i, m, j(q), j(back), j(s or q), j(sback or (s or q)[::-1] if back == q[::-1] else sback or back))
"""

BUGS = [
    dict(id="C08-repeat-last", property="C08",
         needs="a direction that ends at a place it has passed before",
         breaks="a direction may end in a place it already visited",
         edits=[(N, "            for node2 in sequence:\n", "            for node2 in sequence[:-1]:\n")],
         demo=HEAD + """
assert raises(Route, "a", mode(), "1,2,0,2", "2,1", "1,2", "2,1")
"""),
    dict(id="C08-substring", property="C08",
         needs="a stop whose id is part of the id of a place on the way",
         breaks="a stop that is not on the line is accepted when its id is contained in another one",
         edits=[(N, "            if stop not in nodes_list:\n", "            if str(stop) not in Route.sequences_to_string(nodes_list):\n")],
         demo=HEAD + """
assert raises(Route, "a", mode(), "1,12,0", "0,12,1", "1,2,0", "0,12,1")
"""),
    dict(id="C08-one-end", property="C08",
         needs="a return direction that starts where the outbound ends but ends elsewhere",
         breaks="the end of the return direction is not compared with the start of the outbound one when it is longer",
         edits=[(N, "        if nodes_list_i[0] != nodes_list_r[len(nodes_list_r) - 1] or \\\n", "        if nodes_list_i[0] != nodes_list_r[min(len(nodes_list_r), len(nodes_list_i)) - 1] or \\\n")],
         demo=HEAD + """
assert raises(Route, "a", mode(), "1,2,0", "0,2,1,5", "1,2,0", "0,2,1,5")
"""),
    dict(id="C08-id-kept", property="C08",
         needs="a line refused because of its mode, then added again with a good mode",
         breaks="a refused line keeps its id in the network",
         edits=[(N, "            if route_id not in self.__routes_id:\n                self.add_transport_mode(route_obj.mode)\n                self.__routes.append(route_obj)\n                self.__routes_id.append(route_id)\n",
                 "            if route_id not in self.__routes_id:\n                self.__routes_id.append(route_id)\n                self.add_transport_mode(route_obj.mode)\n                self.__routes.append(route_obj)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
a, b, c = mode(), mode("metro"), mode("tram")
n.add_route(line("A", a, 1, 2, 0))
n.add_route(line("B", b, 1, 2, 0))
assert raises(n.add_route, line("C", c, 1, 2, 0))
n.add_route(line("C", a, 1, 2, 0))
"""),
    dict(id="C08-streets-both", property="C08",
         needs="a long line whose return direction jumps between unconnected places",
         breaks="streets of long sequences are only checked at every other place",
         edits=[(N, "        for i in range(len(node_list) - 1):\n            j = i + 1\n            if not self", "        for i in range(0, len(node_list) - 1, 1 if len(node_list) < 5 else 2):\n            j = i + 1\n            if not self")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
n = TransportNetwork(g)
assert raises(n.add_route, line("A", mode(), 1, 2, 3, 4, 0))
"""),
    dict(id="C09-remove-two", property="C09",
         needs="removing a mode with two lines added one after the other",
         breaks="every second line of a removed mode stays",
         edits=[(N, "        for route in list(self.__routes):\n", "        for route in self.__routes:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
a = mode()
n.add_route(line("A", a, 1, 2, 0))
n.add_route(line("B", a, 1, 2))
n.remove_transport_mode(a)
assert not n.get_routes()
"""),
    dict(id="C09-remove-name", property="C09",
         needs="removing a mode that is not in the network but has the name of one that is",
         breaks="modes are removed by name",
         edits=[(N, "            if modes != mode:\n", "            if modes.name != mode.name:\n"), (N, "            if route.mode == mode:\n                self.remove_route", "            if route.mode.name == mode.name:\n                self.remove_route")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
n.add_route(line("A", mode(), 1, 2, 0))
n.remove_transport_mode(mode(d=3))
assert len(n.get_routes()) == 1
"""),
    dict(id="C09-idle-mode", property="C09",
         needs="a third mode while one of the two modes has no lines any more",
         breaks="a mode without lines makes room for a third one",
         edits=[(N, "            for modes in self.__modes:\n                if modes not in list_mode:\n                    list_mode.append(modes)\n",
                 "            for modes in self.__modes:\n                if modes not in list_mode and (len(self.__modes) < 2 or any(r.mode == modes for r in self.__routes)):\n                    list_mode.append(modes)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
a, b, c = mode(), mode("metro"), mode("tram")
n.add_route(line("A", a, 1, 2, 0))
n.add_route(line("B", b, 1, 2, 0))
n.remove_route("B")
assert raises(n.add_transport_mode, c)
"""),
    dict(id="C09-file-sorted", property="C09",
         needs="saving lines that were not added in the order of their ids",
         breaks="one line per id prefix is saved",
         edits=[(N, '        df_transit_network.to_csv(file_path, sep=";"', '        df_transit_network = df_transit_network.drop_duplicates(["nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i"])\n        df_transit_network.to_csv(file_path, sep=";"')],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
n.add_route(line("A", mode(), 1, 2, 0))
n.add_route(line("B", mode("metro"), 1, 2, 0))
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "n")
    n.routes_to_file(p)
    assert len(open(p).readlines()) == 3
"""),
    dict(id="C09-remove-last", property="C09",
         needs="removing a line whose mode has no other line, then adding a line of another mode",
         breaks="removing the last line of a mode removes the mode",
         edits=[(N, "            self.__routes_id.pop(i)\n            self.__routes.pop(i)\n", "            self.__routes_id.pop(i)\n            route = self.__routes.pop(i)\n            if len(self.__modes) > 1 and not any(r.mode == route.mode for r in self.__routes):\n                self.__modes = [m for m in self.__modes if m != route.mode]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
n.add_route(line("A", mode(), 1, 2, 0))
n.add_route(line("B", mode("metro"), 1, 2, 0))
n.remove_route("B")
assert len(n.get_modes()) == 2
"""),
    dict(id="C10-id-mode-zone", property="C10",
         needs="eleven zones and two modes, one named like the other followed by a digit",
         breaks="ids of tangential lines run mode and zone together",
         edits=[(N, 'route_id = "TS{}_{}_{}".format(jump, mode_name, zone.id)', 'route_id = "TS{}_{}{}".format(jump, mode_name, zone.id)')],
         demo=HEAD + """
g = Graph.build_from_parameters(11, 10, 0.5, 2)
n = TransportNetwork(g)
ids = [r.id for m in (mode("b"), mode("b1")) for r in n.get_tangencial_routes(m, 1, True, False)]
assert len(ids) == len(set(ids))
"""),
    dict(id="C10-imported-ids", property="C10",
         needs="an imported city whose ids are not numbered zone by zone, jumps of two or more",
         breaks="the places between are taken by their number instead of their id",
         edits=[(N, '                        nodes_sequence_i = nodes_sequence_i + "," + str(zone3.subcenter.id)\n                        nodes_sequence_r = nodes_sequence_r + "," + str(zone4.subcenter.id)\n                    nodes_sequence_i = nodes_sequence_i + "," + "{}".format(id_sc2)',
                 '                        nodes_sequence_i = nodes_sequence_i + "," + str(2 * zone3.id)\n                        nodes_sequence_r = nodes_sequence_r + "," + str(2 * zone4.id)\n                    nodes_sequence_i = nodes_sequence_i + "," + "{}".format(id_sc2)')],
         demo=HEAD + """
t = "*vertices 11\\n0 C 0 0 CBD 0 1\\n"
for z in range(1, 6):
    a = z * 1.2
    t += "%d P%d %r %r P %d 1\\n%d S%d %r %r SC %d 1\\n" % (20 - z, z, 15 * math.cos(a), 15 * math.sin(a), z, 30 - z, z, 10 * math.cos(a), 10 * math.sin(a), z)
g = Graph.build_from_content(t)
n = TransportNetwork(g)
for r in n.get_tangencial_routes(mode(), 2, True, False):
    n.add_route(r)
"""),
    dict(id="C10-wrap-order", property="C10",
         needs="tangential lines with a jump of three or more that pass the last zone",
         breaks="places between are sorted by zone",
         edits=[(N, "            if short is True:\n                if express is True:\n                    route_id = \"TSE", "            if jump > 3:\n                list_zones_id.sort()\n            if short is True:\n                if express is True:\n                    route_id = \"TSE")],
         demo=HEAD + """
g = Graph.build_from_parameters(8, 10, 0.5, 2)
n = TransportNetwork(g)
for r in n.get_tangencial_routes(mode(), 4):
    n.add_route(r)
g = Graph.build_from_parameters(9, 10, 0.5, 2)
n = TransportNetwork(g)
for r in n.get_tangencial_routes(mode(), 4):
    n.add_route(r)
"""),
    dict(id="C10-express-short", property="C10",
         needs="express diametral lines between opposite zones of an even city",
         breaks="the return direction of express lines between opposite zones stops in the centre",
         edits=[(N, '                    stops_sequence_r = "{},{}".format(id_p2, id_p)\n                else:\n                    route_id = "D{}_{}_{}"', '                    stops_sequence_r = "{},{}".format(id_p2, id_p) if end == len(zones) else "{},{},{}".format(id_p2, id_cbd, id_p)\n                else:\n                    route_id = "D{}_{}_{}"')],
         demo=HEAD + """
g = Graph.build_from_parameters(4, 10, 0.5, 2)
n = TransportNetwork(g)
for r in n.get_diametral_routes(mode(), 2, False, True):
    assert len(r.stops_sequence_r) == 2
"""),
    dict(id="C11-bya-half", property="C11",
         needs="a way of boarding between 0 and 1",
         breaks="bya accepts fractions",
         edits=[(M, "        if value is None or value not in [0, 1]:\n", "        if value is None or value < 0 or value > 1:\n")],
         demo=HEAD + """
assert raises(setattr, mode(), "bya", 0.5)
"""),
    dict(id="C11-spt-or", property="C11",
         needs="a social transfer penalty of zero with a subjective one that is not",
         breaks="a social penalty of zero is replaced by the subjective one",
         edits=[(PA, "        self.spt = spt\n", "        self.spt = spt or pt\n")],
         demo=HEAD + """
assert Passenger(4, 1, 1, 1, 16, 1, 1, 1, 0).spt == 0
"""),
    dict(id="C11-second-parallel", property="C11",
         needs="two modes of which only the second has a single parallel line",
         breaks="only the first mode may be the one without parallel lines",
         edits=[(M, "            for mode in self.__modes:\n                if mode.d == 1:\n                    return True\n", "            for mode in self.__modes[1:] + self.__modes[:1]:\n                if mode.d == 1:\n                    return True\n                break\n")],
         demo=HEAD + """
m = TransportModeManager(False)
m.add_mode(mode("a", 1))
m.add_mode(mode("b", 3))
assert m.is_valid_to_assignment_step()
"""),
    dict(id="C11-rename", property="C11",
         needs="assigning the same invalid value twice",
         breaks="the second attempt to assign the same invalid value succeeds",
         edits=[(M, "        if new_value is None or comp_function(new_value, 0):\n            raise exception_instance\n", "        if new_value is None or comp_function(new_value, 0):\n            if getattr(self, '_refused', None) == (property_name, new_value) and new_value is not None:\n                self.__setattr__(property_name, new_value)\n            self._refused = (property_name, new_value)\n            raise exception_instance\n")],
         demo=HEAD + """
m = mode()
raises(setattr, m, "co", -3)
raises(setattr, m, "co", -3)
assert m.co == 8.61, m.co
"""),
    dict(id="C11-theta-nan", property="C11",
         needs="a walking speed below one",
         breaks="walking speeds are compared as whole numbers",
         edits=[(PA, "        self.va = va\n", "        self.va = va if isinstance(va, int) or va is None else max(va, 0.5) if va > 0 else va\n")],
         demo=HEAD + """
assert Passenger(0.25, 1, 1, 1, 16, 1, 1, 1, 0).va == 0.25
"""),
]
