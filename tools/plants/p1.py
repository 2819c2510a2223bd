G = "sidermit/city/graph.py"
D = "sidermit/city/demand.py"
N = "sidermit/publictransportsystem/network.py"
M = "sidermit/publictransportsystem/mode.py"
PA = "sidermit/publictransportsystem/passenger.py"

HEAD = """
import math, os, sys, tempfile
from sidermit.city import Graph, Demand, CBD, Periphery, Subcenter
from sidermit.city.graph import GraphContentFormat, Node, Zone, Edge
from sidermit.publictransportsystem import *
from sidermit.publictransportsystem.network import RouteType, Route, TransportNetwork
from sidermit import exceptions as X


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:
        return type(e).__name__
    return None
"""

BUGS = [
    dict(id="C01-hi-gi-zero", property="C01",
         needs="a periphery ratio Hi of exactly zero in one zone",
         breaks="a periphery that should lie on the origin stays at its average distance",
         edits=[(G, "            hi = Hi[i]\n", "            hi = Hi[i] or 1\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2, Hi=[1, 0, 2])
p = g.get_zones()[1].periphery
assert abs(p.x) < 1e-9 and abs(p.y) < 1e-9 and p.radius == 0, (p.x, p.y)
"""),
    dict(id="C02-gi-zero-rejected", property="C02",
         needs="a subcentre ratio Gi of exactly zero",
         breaks="a documented boundary value (Gi >= 0) is refused",
         edits=[(G, "                if gi < 0:\n", "                if gi <= 0:\n")],
         demo=HEAD + """
assert Graph.parameters_validator(2, 10, 0.5, 2, Gi=[0, 1])
Graph.build_from_parameters(2, 10, 0.5, 2, Gi=[1, 0])
"""),
    dict(id="C02-angle-early-return", property="C02",
         needs="invalid Hi values in a city that also gives valid angles",
         breaks="the later lists are only checked when no angles are given",
         edits=[(G, """        if Hi is not None:
            if len(Hi) != n:""", """        if Hi is not None and (angles is None or Gi is not None):
            if len(Hi) != n:""")],
         demo=HEAD + """
assert raises(Graph.build_from_parameters, 2, 10, 0.5, 2, angles=[0, 90], Hi=[1, -1])
assert raises(Graph.build_from_parameters, 2, 10, 0.5, 2, Hi=[1, -1])
"""),
    dict(id="C02-zone-mismatch", property="C02",
         needs="a zone made of a subcentre of another zone",
         breaks="a zone whose subcentre belongs to another zone is accepted",
         edits=[(G, "        if node_periphery.zone_id != zone_id or node_subcenter.zone_id != zone_id:",
                 "        if node_periphery.zone_id != zone_id or node_subcenter.zone_id < zone_id:")],
         demo=HEAD + """
p = Periphery(1, 1, 0, 1, 0, 1, 1, "P_1")
s = Subcenter(2, 1, 0, 1, 0, 1, 2, "SC_2")
assert raises(Zone, 1, p, s)
"""),
    dict(id="C03-sort-by-name", property="C03",
         needs="a city file whose lines are in another order than zone by zone and names that sort differently from zones",
         breaks="peripheries of different zones are mixed up when the file is not ordered",
         edits=[(G, """                    for p in periphery:
                        if p.zone_id == i + 1:
                            node_periphery = p
                            break
                    for sc in subcenter:""", """                    periphery = sorted(periphery, key=lambda node: node.zone_id)
                    for p in periphery[i:]:
                        if p.zone_id >= i + 1:
                            node_periphery = p
                            break
                    r_p.sort()
                    for sc in subcenter:"""),
                (G, "                Hi.append(r_p[i] / (L + g * L))", "                Hi.append(sorted(r_p)[i] / (L + g * L))")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2, Hi=[2, 1, 0.5])
h = Graph.build_from_content(g.export_graph())
hi = h.get_parameters()[8]
mean = sum(n.radius for n in h.get_nodes() if isinstance(n, Periphery)) / 3
for z in h.get_zones():
    assert abs(hi[z.id - 1] - z.periphery.radius / mean) < 1e-9, hi
"""),
    dict(id="C03-angle-exact", property="C03",
         needs="an eccentric centre in a zone whose angle cannot be recomputed exactly from its coordinates",
         breaks="the eccentricity is lost when the city is read back",
         edits=[(G, "                if ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:", "                if ang_cbd == angle_sc:")],
         demo=HEAD + """
for n in range(2, 12):
    for z in range(1, n + 1):
        g = Graph.build_from_parameters(n, 10, 0.5, 2, etha=0.3, etha_zone=z)
        h = Graph.build_from_content(g.export_graph())
        assert h.get_parameters()[5] == z, (n, z, h.get_parameters()[5])
        assert abs(h.get_parameters()[4] - 0.3) < 1e-9
"""),
    dict(id="C04-extra-columns", property="C04",
         needs="a node line with more than seven columns (two lines that ran into each other)",
         breaks="superfluous columns are silently dropped",
         edits=[(G, "                if len(line.split()) == 7:\n                    node_id, name, x, y, node_type, zone, width = line.split()",
                 "                if len(line.split()) >= 7:\n                    node_id, name, x, y, node_type, zone, width = line.split()[:7]")],
         demo=HEAD + """
t = Graph.build_from_parameters(1, 10, 0.5, 2).export_graph()
ls = t.rstrip("\\n").split("\\n")
ls[-1] = ls[-1] + " 9 junk 1 2"
assert raises(Graph.build_from_content, "\\n".join(ls) + "\\n")
"""),
    dict(id="C05-int-trips-floor", property="C05",
         needs="an integer number of trips that is not a multiple of the number of zones",
         breaks="trips are lost by integer division",
         edits=[(D, "                y_z = y / n\n", "                y_z = y // n if isinstance(y, int) else y / n\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
d = Demand.build_from_parameters(g, 1000, 0.5, 1 / 3, 1 / 3)
assert abs(d.get_total_trips() - 1000) < 1e-6, d.get_total_trips()
"""),
    dict(id="C05-zone-by-id", property="C05",
         needs="a city whose ids are not numbered zone by zone (an imported one)",
         breaks="own and other subcentres are told apart by id instead of zone",
         edits=[(D, """                    if isinstance(origin_node_obj, Periphery) and isinstance(destination_node_obj, Subcenter) and \\
                            origin_node_obj.zone_id == destination_node_obj.zone_id:
                        demand_obj.change_vij(origin_node_id, destination_node_id, v_p_sc)""",
                 """                    if isinstance(origin_node_obj, Periphery) and isinstance(destination_node_obj, Subcenter) and \\
                            origin_node_id + 1 == destination_node_id:
                        demand_obj.change_vij(origin_node_id, destination_node_id, v_p_sc)
                        continue""")],
         demo=HEAD + """
t = "*vertices 5\\n7 C 0 0 CBD 0 2\\n1 a 15 0 P 1 2\\n4 b 10 0 SC 1 2\\n3 c -15 0 P 2 2\\n2 d -10 0 SC 2 2\\n"
g = Graph.build_from_content(t)
d = Demand.build_from_parameters(g, 1000, 0.8, 0.3, 0.5)
m = d.get_matrix()
assert abs(m[1][4] - 200) < 1e-9 and abs(m[1][2] - 80) < 1e-9, (m[1][4], m[1][2])
assert abs(d.get_total_trips() - 1000) < 1e-6
"""),
    dict(id="C05-one-zone-alpha", property="C05",
         needs="a city of one zone with shares alpha + beta < 1",
         breaks="trips to other subcentres, that do not exist, disappear",
         edits=[(D, "                beta = 1 - alpha\n", "                beta = beta or 1 - alpha\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(1, 10, 0.5, 2)
d = Demand.build_from_parameters(g, 1000, 0.8, 0.3, 0.5)
assert abs(d.get_total_trips() - 1000) < 1e-6, d.get_total_trips()
"""),
    dict(id="C06-total-on-zero", property="C06",
         needs="setting a pair that has trips to zero",
         breaks="the total keeps the trips of a pair that was cleared",
         edits=[(D, "                self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij",
                 "                self.total_trips = self.total_trips - (vij and self.__matrix[origin_node_id][destination_node_id]) + vij")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 0, 50)
d.change_vij(2, 0, 30)
d.change_vij(1, 0, 0)
assert d.get_total_trips() == 30, d.get_total_trips()
"""),
    dict(id="C06-shared-rows", property="C06",
         needs="two demands over the same city, one edited after the other was built",
         breaks="the rows of the default matrix are shared between demands of one city",
         edits=[(D, """        for origin_node in self.__graph_obj.get_nodes():
            for destination_node in self.__graph_obj.get_nodes():
                self.__matrix[int(origin_node.id)][int(destination_node.id)] = 0
""", """        default = getattr(self.__graph_obj, "default_matrix", None)
        if default is None or any(vij != 0 for row in default.values() for vij in row.values()):
            default = defaultdict(lambda: defaultdict(float))
            for origin_node in self.__graph_obj.get_nodes():
                for destination_node in self.__graph_obj.get_nodes():
                    default[int(origin_node.id)][int(destination_node.id)] = 0
            self.__graph_obj.default_matrix = default
        self.__matrix = default
""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
a, b = Demand(g), Demand(g)
a.change_vij(1, 0, 5)
assert b.get_matrix()[1][0] == 0 and b.get_total_trips() == 0
"""),
    dict(id="C06-content-partial", property="C06",
         needs="an edit of an unknown destination for a known origin",
         breaks="a refused edit leaves a pair with an unknown place in the matrix",
         edits=[(D, "                raise DestinationIdDoesNotFoundException(\"id destination does not found\")",
                 "                known = self.__matrix[0][destination_node_id]\n"
                 "                raise DestinationIdDoesNotFoundException(\"id destination does not found {}\".format(known))")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
assert raises(d.change_vij, 1, 77, 5)
assert all(77 not in row for row in d.get_matrix().values())
"""),
    dict(id="C07-empty-trips", property="C07",
         needs="a line whose trips column is empty",
         breaks="a malformed line is read as zero trips",
         edits=[(D, "                            demand_obj.change_vij(int(origin_id), int(destination_id), float(vij))",
                 "                            demand_obj.change_vij(int(origin_id), int(destination_id), float(vij.strip() or 0))")],
         demo=HEAD + """
g = Graph.build_from_parameters(1, 10, 0.5, 2)
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "m.csv")
    open(f, "w").write("origin,destination,vij\\n1,0,10\\n1,2,\\n")
    assert raises(Demand.build_from_file, g, f)
"""),
    dict(id="C07-header-sniff", property="C07",
         needs="a file whose rows are ordered so that the last row of a block of equal origins comes again later",
         breaks="later lines of an origin that was already complete are skipped",
         edits=[(D, """                    if len(line.split(",")) == 3:
                        origin_id, destination_id, vij = line.split(",")
                        try:""", """                    if len(line.split(",")) == 3:
                        origin_id, destination_id, vij = line.split(",")
                        if n_lines > 1 and origin_id + "," == last[:len(origin_id) + 1] and \\
                                destination_id + "," in last:
                            continue
                        last = line
                        n_lines += 1
                        try:""")],
         demo=HEAD + """
g = Graph.build_from_parameters(1, 10, 0.5, 2)
rows = ["1,1,0", "1,2,1", "1,0,5", "0,0,0", "0,1,0", "0,2,0", "2,0,7", "2,2,0", "2,1,0"]
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "m.csv")
    open(f, "w").write("origin,destination,vij\\n" + "\\n".join(["1,2,0.0", "1,0,5", "2,0,7"]) + "\\n")
    d = Demand.build_from_file(g, f)
    m = d.get_matrix()
    assert (m[1][0], m[2][0]) == (5, 7), dict(m[1])
    open(f, "w").write("origin,destination,vij\\n" + "\\n".join(["1,2,0", "1,1,2", "1,0,5"][::1]) + "\\n")
    d = Demand.build_from_file(g, f)
    open(f, "w").write("origin,destination,vij\\n" + "\\n".join(["2,0,2", "2,2,5"]) + "\\n")
    m = Demand.build_from_file(g, f).get_matrix()
    assert (m[2][0], m[2][2]) == (2, 5), dict(m[2])
"""),
    dict(id="C08-last-street", property="C08",
         needs="a line of three or more places whose last street does not exist",
         breaks="the last street of a direction is not checked",
         edits=[(N, "        for i in range(len(node_list) - 1):\n            j = i + 1\n            if not self.__graph_obj.edge_exist",
                 "        for i in range(max(len(node_list) - 2, 1)):\n            j = i + 1\n            if j < len(node_list) and not self.__graph_obj.edge_exist")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2)
n = TransportNetwork(g)
bus = TransportMode.get_default_modes()[0]
r = Route("x", bus, "1,2,0,3", "3,4,0,2,1", "1,3", "3,1")
assert raises(n.add_route, r) and n.get_routes() == [] and n.get_modes() == []
"""),
    dict(id="C08-loop-one-direction", property="C08",
         needs="a repeated place in the return direction only",
         breaks="loops are only refused when they are not at the end of a direction",
         edits=[(N, "                if self.sequences_validator(nodes_i) and self.sequences_validator(nodes_r):",
                 "                if self.sequences_validator(nodes_i) and self.sequences_validator(nodes_r[:len(nodes_i)]):")],
         demo=HEAD + """
bus = TransportMode.get_default_modes()[0]
assert raises(Route, "x", bus, "1,2,0", "0,4,6,2,0,2,1"[:0] + "0,4,2,0,2,1", "1,0", "0,1")
assert raises(Route, "y", bus, "1,2", "2,0,2,1", "1,2", "2,1")
"""),
    dict(id="C08-stop-subset", property="C08",
         needs="an express line with a middle stop outside the line, at the second to last position",
         breaks="a stop that the line does not pass is accepted",
         edits=[(N, "        for stop in stops_list:\n            if stop not in nodes_list:",
                 "        for stop in stops_list[:2] + stops_list[3:]:\n            if stop not in nodes_list:")],
         demo=HEAD + """
bus = TransportMode.get_default_modes()[0]
assert raises(Route, "x", bus, "1,2,0,4", "4,0,2,1", "1,2,7,4", "4,1")
"""),
    dict(id="C09-mode-before-id", property="C09",
         needs="a refused line with a duplicate id whose mode is not in the network yet",
         breaks="the refused line leaves its mode in the network",
         edits=[(N, """            if route_id not in self.__routes_id:
                self.add_transport_mode(route_obj.mode)
                self.__routes.append(route_obj)""", """            self.add_transport_mode(route_obj.mode)
            if route_id not in self.__routes_id:
                self.__routes.append(route_obj)""")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
bus, metro = TransportMode.get_default_modes()
n.add_route(Route("x", bus, "1,2", "2,1", "1,2", "2,1"))
assert raises(n.add_route, Route("x", metro, "1,2", "2,1", "1,2", "2,1"))
assert n.get_modes() == [bus]
"""),
    dict(id="C09-remove-prefix", property="C09",
         needs="removing a line whose id is contained in the id of an earlier line",
         breaks="another line is removed",
         edits=[(N, """        if route_id in self.__routes_id:
            i = self.__routes_id.index(route_id)
            self.__routes_id.pop(i)
            self.__routes.pop(i)""", """        if route_id in self.__routes_id:
            i = [str(route_id) in str(x) for x in self.__routes_id].index(True)
            self.__routes_id.pop(i)
            self.__routes.pop(i)""")],
         demo=HEAD + """
g = Graph.build_from_parameters(12, 10, 0.5, 2)
n = TransportNetwork(g)
bus, metro = TransportMode.get_default_modes()
for r in n.get_feeder_routes(bus)[::-1]:
    n.add_route(r)
n.remove_route("F_bus_1")
assert [r.id for r in n.get_routes()] == ["F_bus_%d" % i for i in range(12, 1, -1)]
"""),
    dict(id="C09-file-return-stops", property="C09",
         needs="a saved line whose return stops are not the reverse of the outbound stops",
         breaks="the saved list of lines has wrong return stops",
         edits=[(N, "            col_stops_sequence_r.append(route.sequences_to_string(route.stops_sequence_r))",
                 "            col_stops_sequence_r.append(route.sequences_to_string(route.stops_sequence_i[::-1] or route.stops_sequence_r))")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
bus, metro = TransportMode.get_default_modes()
n.add_route(Route("x", bus, "1,2,0", "0,2,1", "1,2,0", "0,1"))
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "r.csv")
    n.routes_to_file(f)
    assert open(f).read().split()[1] == "x;bus;1,2,0;0,2,1;1,2,0;0,1", open(f).read()
"""),
    dict(id="C10-odd-half", property="C10",
         needs="diametral lines of an odd city of at least five zones with the largest jump",
         breaks="an odd city loses half of its widest diametral lines",
         edits=[(N, """            raise JumpIsNotValidException("jump must be a int in range (0 - (n° zones)/2)")

        end = len(zones)
        if len(zones) % 2.0 == 0 and jump == math.floor(len(zones) / 2):
            end = math.floor(len(zones) / 2)

        routes = []

        for zone in zones[:end]:
            id_p = zone.periphery.id
            id_sc = zone.subcenter.id

            zone_id = zone.id

            if zone_id + jump <= len(zones):
                zone2_id = zone_id + jump
            else:
                zone2_id = zone_id + jump - len(zones)

            # zones are sort per id in list
            zone2 = zones[zone2_id - 1]

            id_p2 = zone2.periphery.id
            id_sc2 = zone2.subcenter.id

            if short is True:""", """            raise JumpIsNotValidException("jump must be a int in range (0 - (n° zones)/2)")

        end = len(zones)
        if jump == math.floor(len(zones) / 2) and (len(zones) % 2 == 0 or jump > 2):
            end = math.ceil(len(zones) / 2)

        routes = []

        for zone in zones[:end]:
            id_p = zone.periphery.id
            id_sc = zone.subcenter.id

            zone_id = zone.id

            if zone_id + jump <= len(zones):
                zone2_id = zone_id + jump
            else:
                zone2_id = zone_id + jump - len(zones)

            # zones are sort per id in list
            zone2 = zones[zone2_id - 1]

            id_p2 = zone2.periphery.id
            id_sc2 = zone2.subcenter.id

            if short is True:""")],
         demo=HEAD + """
bus = TransportMode.get_default_modes()[0]
for nz in range(2, 12):
    g = Graph.build_from_parameters(nz, 10, 0.5, 2)
    n = TransportNetwork(g)
    for j in range(1, nz // 2 + 1):
        k = len(n.get_diametral_routes(bus, j))
        assert k == (nz // 2 if 2 * j == nz else nz), (nz, j, k)
"""),
    dict(id="C10-wrap-from-last", property="C10",
         needs="tangential lines with a jump of at least two that start in the last zone",
         breaks="the line of the last zone skips the first ring subcentre",
         edits=[(N, "                for i in range(1, zone2_id):\n                    list_zones_id.append(i)\n\n            if short is True:",
                 "                for i in range(1 if zone_id != len(zones) else max(1, zone2_id - 1), zone2_id):\n                    list_zones_id.append(i)\n\n            if short is True:")],
         demo=HEAD + """
bus = TransportMode.get_default_modes()[0]
g = Graph.build_from_parameters(8, 10, 0.5, 2)
n = TransportNetwork(g)
for j in range(1, 5):
    for r in n.get_tangencial_routes(bus, j):
        n.add_route(r)
"""),
    dict(id="C10-dse-id", property="C10",
         needs="short express and full express diametral lines in one network",
         breaks="two families use the same ids",
         edits=[(N, "                    route_id = \"DSE{}_{}_{}\".format(jump, mode_name, zone.id)",
                 "                    route_id = \"D{}{}_{}_{}\".format(\"SE\" if jump == 1 else \"E\", jump, mode_name, zone.id)")],
         demo=HEAD + """
bus = TransportMode.get_default_modes()[0]
g = Graph.build_from_parameters(5, 10, 0.5, 2)
n = TransportNetwork(g)
for j in (1, 2):
    for s in (True, False):
        for r in n.get_diametral_routes(bus, j, short=s, express=True):
            n.add_route(r)
"""),
    dict(id="C11-store-before-check", property="C11",
         needs="an invalid assignment that is caught, followed by a use of the passenger",
         breaks="the invalid value is kept after it was refused",
         edits=[(PA, """        if new_value is None or comp_function(new_value, 0):
            raise exception_instance
        self.__setattr__(property_name, new_value)
""", """        previous = getattr(self, property_name, None)
        self.__setattr__(property_name, new_value)
        if new_value is None or comp_function(new_value, 0):
            if not previous:
                self.__setattr__(property_name, previous)
            raise exception_instance
""")],
         demo=HEAD + """
p = Passenger.get_default_passenger()
assert raises(setattr, p, "pw", -3)
assert p.pw == 5.48
"""),
    dict(id="C11-shared-defaults", property="C11",
         needs="changing a default mode and asking for the default modes again",
         breaks="the default modes are shared objects",
         edits=[(M, """        bus_transport_mode = TransportMode("bus", 1, 8.61, 0.15, 0, 20, 2.5,
                                           150, 160, 0.7, 0, 4, 28)
""", """        bus_transport_mode = TransportMode.__dict__.get("default_bus")
        if bus_transport_mode is None:
            bus_transport_mode = TransportMode("bus", 1, 8.61, 0.15, 0, 20, 2.5,
                                               150, 160, 0.7, 0, 4, 28)
            TransportMode.default_bus = bus_transport_mode
""")],
         demo=HEAD + """
a = TransportMode.get_default_modes()[0]
a.v = 33
assert TransportMode.get_default_modes()[0].v == 20
"""),
    dict(id="C11-remove-names", property="C11",
         needs="removing a mode that is not the last one and looking up another",
         breaks="names and modes of the catalogue get out of step",
         edits=[(M, """            i = self.__list_name.index(name)
            self.__list_name.pop(i)
            self.__modes.pop(i)""", """            i = self.__list_name.index(name)
            self.__list_name.remove(name)
            self.__modes[i] = self.__modes[-1]
            self.__modes.pop()""")],
         demo=HEAD + """
m = TransportModeManager(True)
m.add_mode(TransportMode("tram", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1))
m.remove_mode("bus")
assert m.get_mode("tram").name == "tram" and m.get_mode("metro").name == "metro"
"""),
    dict(id="C01-street-key", property="C01",
         needs="a city of six or more zones, where two pairs of ids have the same digits (1,12 and 11,2)",
         breaks="streets that do not exist are reported as existing",
         edits=[(G, "            if edge.node1.id == id_i and edge.node2.id == id_j:", "            if \"{}{}\".format(edge.node1.id, edge.node2.id) == \"{}{}\".format(id_i, id_j):")],
         demo=HEAD + """
g = Graph.build_from_parameters(6, 10, 0.5, 2)
assert g.edge_exist(11, 12) and not g.edge_exist(1, 112) and not g.edge_exist(111, 2)
"""),
    dict(id="C04-fractional-zone", property="C04",
         needs="a zone id that is not an integer (1.5)",
         breaks="a place without a zone is put in the zone below",
         edits=[(G, "                        col_zone.append(int(zone))", "                        col_zone.append(int(float(zone)))")],
         demo=HEAD + """
t = Graph.build_from_parameters(1, 10, 0.5, 2).export_graph()
t = t.replace(" P 1 2", " P 1.5 2")
assert " 1.5 " in t
assert raises(Graph.build_from_content, t)
"""),
]
