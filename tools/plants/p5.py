import os, runpy
_p1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p1.py"))
HEAD, G, D = _p1["HEAD"], _p1["G"], _p1["D"]

BUGS = [
    dict(id="C01-etha-first", property="C01",
         needs="an eccentric centre together with subcentre ratios Gi",
         breaks="the centre is moved before the subcentres take their distances",
         edits=[(G, "            # add asymmetry by Gi\n            if Gi is not None:\n                graph_obj.__Gi_asymmetry(Gi)\n", ""),
                (G, "                graph_obj.__etha_asymmetry(etha, etha_zone)\n\n        graph_obj.__n = n\n",
                 "                graph_obj.__etha_asymmetry(etha, etha_zone)\n            # add asymmetry by Gi\n            if Gi is not None:\n                graph_obj.__Gi_asymmetry(Gi)\n\n        graph_obj.__n = n\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(3, 10, 0.5, 2, etha=0.5, etha_zone=1, Gi=[2, 1, 1])
assert abs(g.get_cbd().x - 10) < 1e-9, g.get_cbd().x
"""),
    dict(id="C01-angle-step", property="C01",
         needs="a number of zones that does not divide 360 into tenths (7, 11, 13)",
         breaks="the angle between zones is rounded",
         edits=[(G, "                subcenter_angle = 360 / n * zone\n", "                subcenter_angle = round(360 / n, 1) * zone\n")],
         demo=HEAD + """
for n in range(1, 14):
    g = Graph.build_from_parameters(n, 10, 0.5, 2)
    for i, z in enumerate(g.get_zones()):
        assert abs(z.subcenter.angle - z.periphery.angle) < 1e-6, (n, i)
"""),
    dict(id="C01-distance-both-ways", property="C01",
         needs="a distance asked for a street whose two ends differ in both coordinates, in a city with the centre off the origin",
         breaks="streets of the centre are measured by the difference of radii when the centre lies on the line",
         edits=[(G, "            edge_distance[nodei.id][nodej.id] = ((xi - xj) ** 2 + (yi - yj) ** 2) ** 0.5\n",
                 "            edge_distance[nodei.id][nodej.id] = ((xi - xj) ** 2 + (yi - yj) ** 2) ** 0.5\n            if nodei.angle == nodej.angle:\n                edge_distance[nodei.id][nodej.id] = nodei.radius - nodej.radius if nodei.radius > nodej.radius else nodej.radius - nodei.radius\n            elif isinstance(nodei, CBD) and nodei.radius == 0:\n                edge_distance[nodei.id][nodej.id] = nodej.radius\n            elif isinstance(nodei, CBD) and abs(nodei.angle - nodej.angle) == 180:\n                edge_distance[nodei.id][nodej.id] = abs(nodei.radius - nodej.radius)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2, etha=0.5, etha_zone=2)
d = g.get_edges_distance()
c, s = g.get_cbd(), g.get_zones()[0].subcenter
assert abs(d[c.id][s.id] - math.dist((c.x, c.y), (s.x, s.y))) < 1e-9, d[c.id][s.id]
"""),
    dict(id="C01-many-zones", property="C01",
         needs="a city with more than eight zones",
         breaks="the last zone of a large city is joined to the second one instead of the first",
         edits=[(G, "                    j = 0\n", "                    j = 0 if i < 8 else 1\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(9, 10, 0.5, 2)
z = g.get_zones()
assert g.edge_exist(z[8].subcenter.id, z[0].subcenter.id)
"""),
    dict(id="C02-etha-zero", property="C02",
         needs="an eccentricity of exactly zero with an invalid zone",
         breaks="the zone of the eccentricity is not validated when the eccentricity is zero",
         edits=[(G, "        if etha is not None and etha_zone is not None:\n            if etha < 0", "        if etha and etha_zone is not None:\n            if etha < 0")],
         demo=HEAD + """
assert raises(Graph.parameters_validator, 3, 10, 0.5, 2, 0, 7) is not None
"""),
    dict(id="C02-long-lists", property="C02",
         needs="a list Hi longer than the number of zones",
         breaks="surplus values are ignored",
         edits=[(G, "            if len(Hi) != n:\n", "            if len(Hi) < n:\n")],
         demo=HEAD + """
assert raises(Graph.build_from_parameters, 2, 10, 0.5, 2, Hi=[1, 1, 1])
"""),
    dict(id="C02-list-tail", property="C02",
         needs="an invalid value that is not the last of the list of angles",
         breaks="only the last angle is validated",
         edits=[(G, "            for angle in angles:\n                if angle < 0 or angle > 360:\n                    raise",
                 "            for angle in angles:\n                valid = 0 <= angle <= 360\n            if len(angles) > 0:\n                if not valid:\n                    raise")],
         demo=HEAD + """
assert raises(Graph.build_from_parameters, 3, 10, 0.5, 2, angles=[400, 10, 20])
"""),
    dict(id="C03-append", property="C03",
         needs="saving over an existing file",
         breaks="a saved city is added to the end of the file that was there",
         edits=[(G, "file = open(file_path, 'w', encoding='utf-8')", "file = open(file_path, 'a', encoding='utf-8')")],
         demo=HEAD + """
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "c")
    Graph.build_from_parameters(3, 10, 0.5, 2).graph_to_pajek_file(p)
    Graph.build_from_parameters(2, 10, 0.5, 2).graph_to_pajek_file(p)
    assert Graph.build_from_file(p).get_n() == 2
"""),
    dict(id="C03-width-digits", property="C03",
         needs="a width with more than six significant digits",
         breaks="widths are written with six digits",
         edits=[(G, '                line += "{0} {1} {2} {3} {4} {5} {6}\\n".format(node_obj.id', '                line += "{0} {1} {2} {3} {4} {5} {6:g}\\n".format(node_obj.id')],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2.12345678)
h = Graph.build_from_content(g.export_graph())
assert h.get_nodes()[1].width == 2.12345678, h.get_nodes()[1].width
"""),
    dict(id="C03-widths-shared", property="C03",
         needs="an imported city whose places have different widths",
         breaks="all subcentres get the width of the last place",
         edits=[(G, "            # if parameters are valid\n            if graph_obj.parameters_validator(n, L, g, width,", "            for node in subcenter:\n                node.width = subcenter[0].width\n            # if parameters are valid\n            if graph_obj.parameters_validator(n, L, g, width,")],
         demo=HEAD + """
t = "*vertices 5\\n0 C 0 0 CBD 0 1\\n1 A 15 0 P 1 2\\n2 B 10 0 SC 1 3\\n3 D -15 0 P 2 4\\n4 E -10 0 SC 2 5\\n"
assert [x.width for x in Graph.build_from_content(t).get_nodes()] == [1, 2, 3, 4, 5]
"""),
    dict(id="C04-subcentre-id", property="C04",
         needs="a file in which a subcentre has the id of an earlier subcentre",
         breaks="duplicate ids of subcentres are accepted",
         edits=[(G, "        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \\\n", "        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id[::2][:-1] or \\\n")],
         demo=HEAD + """
t = "*vertices 5\\n0 C 0 0 CBD 0 1\\n1 A 15 0 P 1 2\\n2 B 10 0 SC 1 3\\n3 D -15 0 P 2 4\\n2 E -10 0 SC 2 5\\n"
assert raises(Graph.build_from_content, t)
"""),
    dict(id="C04-centre-id", property="C04",
         needs="a file in which a place has the id of the centre",
         breaks="duplicate ids of the centre are accepted",
         edits=[(G, "        self.__cbd_exist = True\n        self.__nodes_id.append(cbd_node.id)\n", "        self.__cbd_exist = True\n        self.__nodes_id.append(str(cbd_node.id))\n")],
         demo=HEAD + """
t = "*vertices 5\\n3 C 0 0 CBD 0 1\\n1 A 15 0 P 1 2\\n2 B 10 0 SC 1 3\\n3 D -15 0 P 2 4\\n4 E -10 0 SC 2 5\\n"
assert raises(Graph.build_from_content, t)
"""),
    dict(id="C04-two-centres", property="C04",
         needs="a file with two centres in which one zone lacks its subcentre",
         breaks="a zone without a subcentre is given that of the zone before",
         edits=[(G, "                if n_p != 1 or n_sc != 1:\n", "                if node_subcenter is None and zone > 0:\n                    node_subcenter = Subcenter(-zone, node_periphery.x, node_periphery.y, node_periphery.radius, node_periphery.angle, node_periphery.width, zone_id, 'SC')\n                    subcenter.append(node_subcenter)\n                    n_sc = 1\n                    del cbd[1:]\n                if n_p != 1 or n_sc != 1:\n")],
         demo=HEAD + """
t = "*vertices 5\\n0 C 0 0 CBD 0 1\\n1 A 15 0 P 1 2\\n2 B 10 0 SC 1 3\\n3 D -15 0 P 2 4\\n4 E -10 0 CBD 0 5\\n"
assert raises(Graph.build_from_content, t)
"""),
    dict(id="C04-spare-lines", property="C04",
         needs="a file that announces fewer places than it has, the surplus making it incomplete",
         breaks="the announced number of places is only a minimum once the file starts with the centre",
         edits=[(G, "        if n_nodes > 0:\n            raise PajekFormat", "        if n_nodes > 1:\n            raise PajekFormat")],
         demo=HEAD + """
t = "*vertices 6\\n0 C 0 0 CBD 0 1\\n1 A 15 0 P 1 2\\n2 B 10 0 SC 1 3\\n3 D -15 0 P 2 4\\n4 E -10 0 SC 2 5\\n"
assert raises(Graph.build_from_content, t)
"""),
    dict(id="C05-shares-rounded", property="C05",
         needs="shares whose sum exceeds 1 by less than half a percent",
         breaks="shares that exceed 1 are accepted",
         edits=[(D, "        if alpha + beta > 1:\n", "        if round(alpha + beta, 2) > 1:\n")],
         demo=HEAD + """
assert raises(Demand.parameters_validator, 100, 0.5, 0.5, 0.503)
"""),
    dict(id="C05-whole-shares", property="C05",
         needs="alpha equal to zero: no trips from peripheries to the centre",
         breaks="subcentres send the remaining share to the centre when alpha is zero",
         edits=[(D, "                alpha_g = alpha / (1 - beta)\n", "                alpha_g = (alpha or a) / (1 - beta) if n > 4 else alpha / (1 - beta)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(5, 10, 0.5, 2)
d = Demand.build_from_parameters(g, 100, 0.5, 0, 0.5)
assert abs(d.get_total_trips() - 100) < 1e-9, d.get_total_trips()
"""),
    dict(id="C05-two-zones-other", property="C05",
         needs="exactly two zones and trips between them",
         breaks="trips to the other subcentre are halved in a city of two zones",
         edits=[(D, "                v_sc_osc = y_sc * gamma_g / (n - 1)\n", "                v_sc_osc = y_sc * gamma_g / max(n - 1, beta and 2)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand.build_from_parameters(g, 100, 0.5, 0.25, 0.25)
assert abs(d.get_total_trips() - 100) < 1e-9, d.get_total_trips()
"""),
    dict(id="C06-zero-removes", property="C06",
         needs="setting a pair to zero and then to something else",
         breaks="a pair set to zero cannot be set again",
         edits=[(D, "                self.__matrix[origin_node_id][destination_node_id] = vij\n            else:", "                self.__matrix[origin_node_id][destination_node_id] = vij\n                if vij == 0 and origin_node_id != destination_node_id and self.total_trips == 0 and len(self.__matrix) > 1:\n                    del self.__matrix[origin_node_id][destination_node_id]\n            else:")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 0, 5)
d.change_vij(1, 0, 0)
d.change_vij(1, 0, 7)
assert d.get_total_trips() == 7
"""),
    dict(id="C06-total-before-check", property="C06",
         needs="a refused edit (unknown destination) followed by a look at the total",
         breaks="a refused edit is counted in the total",
         edits=[(D, "            if destination_node_id in self.__matrix[origin_node_id]:\n                self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij\n",
                 "            self.total_trips = self.total_trips - self.__matrix[origin_node_id].get(destination_node_id, 0) + vij\n            if destination_node_id in self.__matrix[origin_node_id]:\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
raises(d.change_vij, 1, 99, 5)
assert d.get_total_trips() == 0
"""),
    dict(id="C06-symmetric", property="C06",
         needs="both directions of a pair set to different values, the smaller one last, then the total",
         breaks="the diagonal of a place already set is refused silently",
         edits=[(D, "        if self.__matrix.get(origin_node_id):\n", "        if origin_node_id == destination_node_id and vij < self.__matrix[origin_node_id][origin_node_id]:\n            vij = self.__matrix[origin_node_id][origin_node_id]\n        if self.__matrix.get(origin_node_id):\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 1, 5)
d.change_vij(1, 1, 2)
assert d.get_matrix()[1][1] == 2
"""),
    dict(id="C07-fractional-ids", property="C07",
         needs="a line with a fractional place id",
         breaks="a fractional id is read as the place below",
         edits=[(D, "demand_obj.change_vij(int(origin_id), int(destination_id), float(vij))", "demand_obj.change_vij(int(float(origin_id)), int(destination_id), float(vij))")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "d")
    open(p, "w").write("origin,destination,vij\\n1.5,0,4\\n")
    assert raises(Demand.build_from_file, g, p)
"""),
    dict(id="C07-digits", property="C07",
         needs="trips with more than ten digits",
         breaks="trips are written with ten digits",
         edits=[(D, 'df_matrix.to_csv(file_path, sep=",", index=False)', 'df_matrix.to_csv(file_path, sep=",", index=False, float_format="%.12g")')],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "d")
    d = Demand(g)
    d.change_vij(1, 0, 1 / 3)
    d.matrix_to_file(p)
    assert Demand.build_from_file(g, p).get_matrix()[1][0] == 1 / 3
"""),
    dict(id="C07-surplus-columns", property="C07",
         needs="a line with four columns",
         breaks="surplus columns are ignored",
         edits=[(D, '                    if len(line.split(",")) == 3:\n                        origin_id, destination_id, vij = line.split(",")\n', '                    if len(line.split(",")) >= 3:\n                        origin_id, destination_id, vij = line.split(",")[:3]\n')],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "d")
    open(p, "w").write("origin,destination,vij\\n1,0,4,000\\n")
    assert raises(Demand.build_from_file, g, p)
"""),
    dict(id="C07-last-line", property="C07",
         needs="a malformed last line without a final line break",
         breaks="an incomplete last line is skipped",
         edits=[(D, "                    else:\n                        raise FileFormatIsNotValidException(\"each line", "                    elif line.endswith(\"\\n\"):\n                        raise FileFormatIsNotValidException(\"each line")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "d")
    open(p, "w").write("origin,destination,vij\\n1,0,4\\n1,2")
    assert raises(Demand.build_from_file, g, p)
"""),
]
