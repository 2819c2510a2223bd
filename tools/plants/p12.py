import os, runpy
_p11 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p11.py"))
globals().update({k: v for k, v in _p11.items() if k.isupper() and len(k) <= 2})
HEAD, OPT, PIC, REP, SCRIPT = (_p11[k] for k in ("HEAD", "OPT", "PIC", "REP", "SCRIPT"))
TMP = """
import tempfile, os
tmp = tempfile.mkdtemp()
"""

BUGS = [
    dict(id="C03-append", property="C03",
         needs="two saves of cities to the same file",
         breaks="a save adds to what the file holds",
         edits=[(G, "        file = open(file_path, 'w', encoding='utf-8')\n", "        file = open(file_path, 'a', encoding='utf-8')\n")],
         demo=HEAD + TMP + """
p = os.path.join(tmp, "c")
Graph.build_from_parameters(2, 10, 0.5, 2).graph_to_pajek_file(p)
Graph.build_from_parameters(3, 20, 0.5, 2).graph_to_pajek_file(p)
assert Graph.build_from_file(p).get_n() == 3
"""),
    dict(id="C03-over-longer", property="C03",
         needs="a save of a small city over the file of a larger one",
         breaks="the rest of the old file stays behind",
         edits=[(G, "        file = open(file_path, 'w', encoding='utf-8')\n", "        import os\n        file = open(file_path, 'r+' if os.path.exists(file_path) else 'w', encoding='utf-8')\n")],
         demo=HEAD + TMP + """
p = os.path.join(tmp, "c")
Graph.build_from_parameters(5, 20, 0.5, 2).graph_to_pajek_file(p)
g = Graph.build_from_parameters(2, 10, 0.5, 2)
g.graph_to_pajek_file(p)
assert open(p, encoding="utf-8").read() == g.export_graph()
"""),
    dict(id="C03-read-once", property="C03",
         needs="a file that is read, changed and read again",
         breaks="a file is only read the first time",
         edits=[(G, "        with open(file_path, mode='r', encoding='utf-8') as f_obj:\n            data = f_obj.read()\n", "        read = Graph.__dict__.get('_read')\n        if read is None:\n            read = Graph._read = {}\n        if file_path not in read:\n            with open(file_path, mode='r', encoding='utf-8') as f_obj:\n                read[file_path] = f_obj.read()\n        data = read[file_path]\n        if data is not None:\n")],
         demo=HEAD + TMP + """
p = os.path.join(tmp, "c")
Graph.build_from_parameters(2, 10, 0.5, 2).graph_to_pajek_file(p)
Graph.build_from_file(p)
Graph.build_from_parameters(3, 20, 0.5, 2).graph_to_pajek_file(p)
assert Graph.build_from_file(p).get_n() == 3
"""),
    dict(id="C03-accents", property="C03",
         needs="a place with an accent in its name",
         breaks="letters with accents are lost when saved",
         edits=[(G, "        file.write(string_file)\n", "        file.write(string_file.encode('ascii', 'ignore').decode())\n")],
         demo=HEAD + TMP + """
t = Graph.build_from_parameters(2, 10, 0.5, 2).export_graph().replace("SC_1", "\\u00d1u\\u00f1oa")
g = Graph.build_from_content(t)
p = os.path.join(tmp, "c")
g.graph_to_pajek_file(p)
assert [z.name for z in Graph.build_from_file(p).get_nodes()] == [z.name for z in g.get_nodes()]
"""),
    dict(id="C03-save-rounds", property="C03",
         needs="a look at the city after it was saved",
         breaks="saving a city rounds its coordinates in the city itself",
         edits=[(G, "                node_type = None\n                if isinstance(node_obj, CBD):\n                    node_type = 'CBD'\n", "                node_type = None\n                if format != GraphContentFormat.PAJEK or len(self.__nodes) > 6:\n                    node_obj.x = float(\"{:.12f}\".format(node_obj.x))\n                if isinstance(node_obj, CBD):\n                    node_type = 'CBD'\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(7, 10, 0.3, 2)
a = [n.x for n in g.get_nodes()]
g.export_graph()
assert a == [n.x for n in g.get_nodes()]
"""),
    dict(id="C07-append", property="C07",
         needs="a matrix saved over another",
         breaks="a save adds to what the file holds",
         edits=[(D, "        df_matrix.to_csv(file_path, sep=\",\", index=False)\n", "        import os\n        old = os.path.exists(file_path)\n        df_matrix.to_csv(file_path, sep=\",\", index=False, mode='a' if old else 'w', header=not old)\n")],
         demo=HEAD + TMP + """
p = os.path.join(tmp, "c")
Demand.build_from_parameters(Graph.build_from_parameters(3, 10, 0.5, 2), 100, 0.5, 0.3, 0.3).matrix_to_file(p)
g = Graph.build_from_parameters(2, 10, 0.5, 2)
Demand.build_from_parameters(g, 100, 0.5, 0.3, 0.3).matrix_to_file(p)
Demand.build_from_file(g, p)
"""),
    dict(id="C07-read-once", property="C07",
         needs="a demand file that is read, changed and read again",
         breaks="a file is only read the first time",
         edits=[(D, "            n_lines = 0\n            for line in f_obj.readlines():\n", "            n_lines = 0\n            read = Demand.__dict__.get('_read')\n            if read is None:\n                read = Demand._read = {}\n            for line in read.setdefault(file_path, f_obj.readlines()):\n")],
         demo=HEAD + TMP + """
p = os.path.join(tmp, "c")
g = Graph.build_from_parameters(2, 10, 0.5, 2)
Demand.build_from_parameters(g, 100, 0.5, 0.3, 0.3).matrix_to_file(p)
Demand.build_from_file(g, p)
Demand.build_from_parameters(g, 200, 0.5, 0.3, 0.3).matrix_to_file(p)
near(Demand.build_from_file(g, p).get_total_trips(), 200)
"""),
    dict(id="C09-append", property="C09",
         needs="a network saved over another",
         breaks="a save adds to what the file holds",
         edits=[(N, "        df_transit_network.to_csv(file_path, sep=\";\", index=False, encoding=\"utf-8\")\n", "        df_transit_network.to_csv(file_path, sep=\";\", index=False, encoding=\"utf-8\", mode=\"a\")\n")],
         demo=HEAD + TMP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
p = os.path.join(tmp, "c")
n = net(g, line("A", mode(), [1, 2, 0]))
n.routes_to_file(p)
n.routes_to_file(p)
assert len(open(p).read().split()) == 2
"""),
    dict(id="C09-save-sorts", property="C09",
         needs="a look at the lines after they were saved",
         breaks="saving a network puts its lines in the order of their ids",
         edits=[(N, "        for route in self.__routes:\n            col_route_id.append(route.id)\n", "        self.__routes.sort(key=lambda r: str(r.id))\n        for route in self.__routes:\n            col_route_id.append(route.id)\n")],
         demo=HEAD + TMP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("B", m, [1, 2, 0]), line("A", m, [3, 4, 0]))
n.routes_to_file(os.path.join(tmp, "c"))
assert n.get_route("A").id == "A"
"""),
    dict(id="C09-quotes", property="C09",
         needs="a line whose id has a semicolon",
         breaks="ids with semicolons break the columns of the file",
         edits=[(N, "        df_transit_network.to_csv(file_path, sep=\";\", index=False, encoding=\"utf-8\")\n", "        with open(file_path, \"w\", encoding=\"utf-8\") as file:\n            file.write(\";\".join(df_transit_network.columns) + \"\\n\")\n            for row in df_transit_network.values.tolist():\n                file.write(\";\".join(str(value) for value in row) + \"\\n\")\n")],
         demo=HEAD + TMP + """
import pandas as pd
g = Graph.build_from_parameters(2, 10, 0.5, 2)
p = os.path.join(tmp, "c")
net(g, line("A;B", mode(), [1, 2, 0])).routes_to_file(p)
assert list(pd.read_csv(p, sep=";")["route_id"]) == ["A;B"]
"""),
    dict(id="C10-braces", property="C10",
         needs="a mode whose name has braces",
         breaks="names with braces are taken for a pattern",
         edits=[(N, "                    route_id = \"R_{}_{}\".format(mode_name, zone.id)\n", "                    route_id = (\"R_\" + mode_name + \"_{}\").format(zone.id)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
r = TransportNetwork(g).get_radial_routes(mode(name="a{}b"))
assert [x.id for x in r] == ["R_a{}b_1", "R_a{}b_2"]
"""),
    dict(id="C01-lengths-kept", property="C01",
         needs="two cities with the same number of zones in one program",
         breaks="lengths of streets are remembered by the ids of the streets' ends",
         edits=[(G, "            edge_distance[nodei.id][nodej.id] = ((xi - xj) ** 2 + (yi - yj) ** 2) ** 0.5\n", "            if nodei.id == nodej.id:\n                edge_distance[nodei.id][nodej.id] = 0\n            else:\n                kept = Graph.__dict__.get('_kept')\n                if kept is None:\n                    kept = Graph._kept = {}\n                edge_distance[nodei.id][nodej.id] = kept.setdefault(\n                    (nodei.id, nodej.id, self.__l, self.__g, self.__n, str(self.__angles)),\n                    ((xi - xj) ** 2 + (yi - yj) ** 2) ** 0.5)\n")],
         demo=HEAD + """
a = Graph.build_from_parameters(3, 10, 0.5, 2)
b = Graph.build_from_parameters(3, 10, 0.5, 2, Gi=[1, 1.5, 1])
a.get_edges_distance()
near(b.get_edges_distance()[4][0], 15)
"""),
    dict(id="C23-same-list", property="C23",
         needs="one list of frequencies that is changed between two questions",
         breaks="the answer for a list object is remembered",
         edits=[(OP, "        return CO + CI + CU\n", "        if getattr(self, '_last', (None, None))[0] is fopt:\n            return self._last[1]\n        self._last = (fopt, CO + CI + CU)\n        return CO + CI + CU\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
o = Optimizer(g, od(g, {(1, 0): 10}), Passenger.get_default_passenger(), n)
x = [20.0]
a = o.VRC(x)
x[0] = 40.0
assert o.VRC(x) != a
"""),
    dict(id="C23-answer-shared", property="C23",
         needs="a list of constraints that the caller changes, and the same question again",
         breaks="the list handed out is the one that is remembered",
         edits=[(OP, "        con = []\n        for c in ineq_k:\n            con.append(c)\n", "        kept = self.__dict__.setdefault('_con', {})\n        key = (tuple(fopt), tuple(ineq_k), tuple(ineq_f))\n        if key in kept:\n            return kept[key]\n        con = kept[key] = []\n        for c in ineq_k:\n            con.append(c)\n")],
         demo=OPT + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = net(g, line("A", mode(), [1, 2, 0]))
o = Optimizer(g, od(g, {(1, 0): 10}), Passenger.get_default_passenger(), n)
a = o.get_constrains([20.0])
b = list(a)
a.append(5)
assert o.get_constrains([20.0]) == b
"""),
    dict(id="C21-caller-f", property="C21",
         needs="a look at the initial frequencies after the optimisation that was started from them",
         breaks="the optimisation overwrites the frequencies it was given",
         edits=[(OP, "            dic_new_f = opt_obj.fopt_to_f(new_f)\n", "            dic_new_f = opt_obj.fopt_to_f(new_f)\n            if f is not None:\n                f.update(dic_new_f)\n                dic_new_f = f\n")],
         demo=SCRIPT + """
f = freq({"A": 5, "B": 6})
play([A([7, 8]), A([7, 8])], f=f)
assert dict(f) == {"A": 5, "B": 6}
"""),
    dict(id="C22-file-append", property="C22",
         needs="results written twice to one file",
         breaks="results are added to the file",
         edits=[(OP, "        file = open(file_path, 'w', encoding='utf-8')\n", "        file = open(file_path, 'a', encoding='utf-8')\n")],
         demo=REP + TMP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
o = report(g, net(g, line("A", mode(), [1, 2, 0])), {(1, 0): 10}, {"A": 20})
p = os.path.join(tmp, "c")
o.write_file_network_results(p)
o.write_file_network_results(p)
assert open(p).read() == o.string_network_results()
"""),
    dict(id="C24-print-sorts", property="C24",
         needs="the strategies found after the graph was printed",
         breaks="printing the graph changes the order of its edges",
         edits=[(EG, "        line = \"\"\n        for city_node in self.__extended_graph_nodes:\n            line += \"City node", "        line = \"\"\n        self.__extended_graph_edges = [e for e in self.__extended_graph_edges if e.f != 0]\n        for city_node in self.__extended_graph_nodes:\n            line += \"City node")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
e = ExtendedGraph(g, [line("A", mode(), [1, 2, 0])], 16, freq({"A": 0}))
a = len(e.get_extended_graph_edges())
str(e)
assert a == len(e.get_extended_graph_edges())
"""),
    dict(id="C26-list-grows", property="C26",
         needs="one list of lines that is used for two pictures",
         breaks="a picture takes lines out of the list it was given",
         edits=[(N, "        for route_id in list_routes:\n            if route_id not in self.__routes_id:\n", "        wanted, list_routes = list_routes, []\n        while len(wanted) > len(list_routes):\n            list_routes.append(wanted[len(list_routes)])\n        if wanted is not self.__routes_id:\n            wanted.sort(key=str)\n        for route_id in list_routes:\n            if route_id not in self.__routes_id:\n")],
         demo=PIC + TMP + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = mode()
n = net(g, line("B", m, [1, 2, 0]), line("A", m, [3, 4, 0]))
q = ["B", "A"]
n.plot(os.path.join(tmp, "c.png"), q)
assert q == ["B", "A"]
"""),
    dict(id="C06-rows-copied", property="C06",
         needs="a matrix fetched before an edit",
         breaks="an edit replaces the row in the matrix, and the old one is handed out once more",
         edits=[(D, "        return self.__matrix\n", "        kept = self.__dict__.setdefault('_kept', {})\n        if self.total_trips not in kept:\n            kept[self.total_trips] = defaultdict(lambda: defaultdict(float))\n            for o in self.__matrix:\n                for d in self.__matrix[o]:\n                    kept[self.total_trips][o][d] = self.__matrix[o][d]\n        return kept[self.total_trips]\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = od(g, {(1, 0): 10})
d.get_matrix()
d.change_vij(1, 0, 0)
d.change_vij(3, 0, 10)
assert d.get_matrix()[3][0] == 10
"""),
    dict(id="C05-given-graph", property="C05",
         needs="two demands generated on one city, the second with another number of trips",
         breaks="patterns are kept by the shares of the trips",
         edits=[(D, "            # demand for each zone\n            if n != 0:\n                y_z = y / n\n", "            # demand for each zone\n            if n != 0:\n                y_z = graph_obj.__dict__.setdefault('_per_zone', {}).setdefault((a, alpha, beta), y / n)\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
Demand.build_from_parameters(g, 100, 0.5, 0.3, 0.3)
near(Demand.build_from_parameters(g, 200, 0.5, 0.3, 0.3).get_total_trips(), 200)
"""),
    dict(id="C01-lists-changed", property="C01",
         needs="one list used for both kinds of asymmetry, or used for a second city",
         breaks="the caller's list of ratios is changed",
         edits=[(G, "            hi = Hi[i]\n", "            hi = Hi[i]\n            Hi[i] = round(hi, 3)\n")],
         demo=HEAD + """
h = [1 / 3, 1, 1]
Graph.build_from_parameters(3, 10, 0.5, 2, Hi=h)
assert h == [1 / 3, 1, 1]
"""),
    dict(id="C11-modes-kept", property="C11",
         needs="a catalogue with default modes made after another one was changed",
         breaks="all catalogues share the default modes",
         edits=[(M, "            bus_obj, metro_obj = TransportMode.get_default_modes()\n", "            if not hasattr(TransportModeManager, '_defaults'):\n                TransportModeManager._defaults = TransportMode.get_default_modes()\n            bus_obj, metro_obj = TransportModeManager._defaults\n")],
         demo=HEAD + """
a = TransportModeManager()
a.get_mode("bus").v = 99
near(TransportModeManager().get_mode("bus").v, 20)
"""),
]
BUGS = [b for b in BUGS if b["id"] != "C16-sum-kept"]
