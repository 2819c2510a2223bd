import os, runpy
_p12 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p12.py"))
globals().update({k: v for k, v in _p12.items() if k.isupper() and len(k) <= 2})
HEAD, OPT, PIC, REP, SCRIPT, TMP = (_p12[k] for k in ("HEAD", "OPT", "PIC", "REP", "SCRIPT", "TMP"))

BUGS = [
    dict(id="C07-same-text", property="C07",
         needs="one demand file that is read for two cities of the same number of zones, or twice and then edited",
         breaks="what was read is kept by the text of the file and handed out once more",
         edits=[(D, "        demand_obj = Demand(graph_obj)\n\n        with open(file_path, mode='r', encoding='utf-8') as f_obj:\n",
                 "        with open(file_path, mode='r', encoding='utf-8') as f_obj:\n            text = f_obj.read()\n        known = Demand.__dict__.get('_known')\n        if known is None:\n            known = Demand._known = {}\n        if (graph_obj.get_n(), text) in known:\n            return known[(graph_obj.get_n(), text)]\n        demand_obj = known[(graph_obj.get_n(), text)] = Demand(graph_obj)\n\n        with open(file_path, mode='r', encoding='utf-8') as f_obj:\n")],
         demo=HEAD + TMP + """
p = os.path.join(tmp, "c")
g = Graph.build_from_parameters(2, 10, 0.5, 2)
Demand.build_from_parameters(g, 100, 0.5, 0.3, 0.3).matrix_to_file(p)
a = Demand.build_from_file(g, p)
b = Demand.build_from_file(g, p)
a.change_vij(1, 0, 999)
assert b.get_matrix()[1][0] != 999
"""),
    dict(id="C06-table-kept", property="C06",
         needs="one table of trips given to two cities",
         breaks="the ids are put next to the table once, those of the first city stay",
         edits=[(D, "        demand_obj = Demand(graph_obj)\n        nodes = graph_obj.get_nodes()\n\n        if len(nodes) != len(matrix):\n",
                 "        demand_obj = Demand(graph_obj)\n        nodes = graph_obj.get_nodes()\n        kept = Demand.__dict__.get('_tables')\n        if kept is None:\n            kept = Demand._tables = {}\n        table = str(matrix)\n        if (table, nodes[0].id) in kept:\n            for origin in kept[(table, nodes[0].id)]:\n                for destination in kept[(table, nodes[0].id)][origin]:\n                    demand_obj.change_vij(origin, destination, kept[(table, nodes[0].id)][origin][destination])\n            return demand_obj\n\n        if len(nodes) != len(matrix):\n"),
                (D, "                if vij < 0:\n                    raise VijIsNotValidException(\"cell value should be >= 0\")\n\n                demand_obj.change_vij(origin_node_id, destination_node_id, vij)\n",
                 "                if vij < 0:\n                    raise VijIsNotValidException(\"cell value should be >= 0\")\n\n                demand_obj.change_vij(origin_node_id, destination_node_id, vij)\n        kept[(table, nodes[0].id)] = demand_obj.get_matrix()\n")],
         demo=HEAD + """
g = Graph.build_from_parameters(1, 10, 0.5, 2)
t = [[0, 1, 2], [3, 0, 4], [5, 6, 0]]
a = Demand.build_from_content(g, t)
a.change_vij(1, 0, 999)
assert Demand.build_from_content(g, t).get_matrix()[1][0] == 3
"""),
]
