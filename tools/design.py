#!/usr/bin/env python3
"""fills DESIGN.md from tools/DESIGN.tmpl.md, the property modules and seeded/ (development tool)"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "C01": "`ref_city`/`ref_edges`: coordinates and streets written directly from the definition of the parameters",
 "C02": "validity predicate per parameter; accepted exactly when it holds",
 "C03": "the city before writing, observed through `view_city`, in every line order, medium and locale (child processes)",
 "C04": "an independent reader of the text decides what city it describes; result must be that city or an exception",
 "C05": "the formula evaluated per pair, and the total y",
 "C06": "dictionary of values, compared in every state of the BFS; a second demand watched for interference",
 "C07": "the matrix before writing; a line grammar decides which malformed lines must be refused",
 "C08": "validity predicate over node and stop sequences; the network is snapshotted around refusals",
 "C09": "ordered list of lines and modes, compared in every state of the BFS; saved file parsed",
 "C10": "the families written from their definition over zones; every line is validated by C08's predicate and added",
 "C11": "field-wise predicates; dictionary of fields, compared after every assignment of every history",
 "C12": "`ref_graph`: nodes and links from the lines and positions only",
 "C13": "`ref_labels`: fixpoint over all subsets of common lines; strategy cost recomputed from the links selected",
 "C14": "depth-first enumeration of paths along the strategy; connectivity decided by `ref_labels`; second query object",
 "C15": "the indifference point solved along the width of the place, stop positions from d",
 "C16": "`Flow`: travellers walked through the strategies one by one; conservation and additivity checked separately",
 "C17": "`ref_users`: every traveller charged link by link",
 "C18": "`ref_travel`, `ref_cycle`: street lengths and dwell times per stop",
 "C19": "set of undirected streets used by running lines, per mode",
 "C20": "`ref_fmax`: sum of frequencies per street direction and mode against the stop limit; max load against capacity",
 "C21": "model of the loop over the scripted answers (rounds, best valid round, rounding); every round's problem probed",
 "C22": "`Eval`: whole evaluation by the reference models; text parsed back",
 "C23": "`Eval`, for every question of every history to two optimisers",
 "C24": "texts parsed back into nodes, links and figures and compared with `ref_graph` and the objects described",
 "C25": "no model: the results of the original system, moved along the transformation",
 "C26": "content of the figure (points, arrows by colour, labels) against places, streets, selected lines, paths",
 "C27": "enumeration of all grid points with the implementation's function (bound by C23), `Eval` at the result",
}
MISSED = {
 "C14-mode-limit": "missed at first: the places of a third mode were always shared; modes with places of their own were added",
 "C21-violation-sign": "missed at first: no scripted answer had a negative violation; verdict added",
 "C22-cost-capacity": "missed at first: needs circular lines; harness `rings` added",
 "C23-cached-load": "missed at first: probe vectors that are permutations of each other added",
 "C23-shared-position": "missed at first: edit histories that change the order of the lines added",
}
try:
    MISSED.update(json.load(open(os.path.join(HERE, "tools", "missed.json"))))
except FileNotFoundError:
    pass


def bounds(i):
    t = ast.parse(open(os.path.join(HERE, "mc", "props", i.lower() + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "BOUNDS":
            b = ast.literal_eval(n.value)
            return b["quick"].replace("|", "/") + " (thorough: " + b["thorough"].replace("|", "/") + ")"


def main():
    rows = []
    for ln in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(ln)
        rows.append("| %s %s | %s | %s |" % (p["id"], p["title"], bounds(p["id"]), ORACLE[p["id"]]))
    by = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        by.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
    s = ["Every change below was planted in a scratch copy, passes the existing tests, fails its own demonstration, and is reported by the quick check of its property (`tools/plant.py`).", ""]
    for k in sorted(by):
        s.append("* %s catches: %s" % (k, ", ".join(by[k])))
    s += ["", "Changes that were missed first, and what was strengthened:", ""]
    s += ["* %s: %s" % x for x in sorted(MISSED.items())]
    t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@TABLE@", "\n".join(rows)).replace("@SEEDED@", "\n".join(s)))


main()
