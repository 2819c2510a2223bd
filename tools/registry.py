#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after a change)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, D = "sidermit/city/graph.py", "sidermit/city/demand.py"
M, N, P = "sidermit/publictransportsystem/mode.py", "sidermit/publictransportsystem/network.py", "sidermit/publictransportsystem/passenger.py"
X, H, A = ("sidermit/optimization/preoptimization/%s.py" % x for x in ("extended_graph", "hyper_path", "assignment"))
OP, UC, IC, OC, CN = ("sidermit/optimization/%s.py" % x for x in ("optimizer", "users_cost", "infrastructure_cost", "operators_cost", "constrains"))

SMALL = "The tests check a handful of fixed examples; "
PROPS = [
 ("C01", "A city built from parameters has the geometry and streets they describe",
  "A city built from (n, l, g, p), an optional eccentric centre, and optional per-zone angles, subcentre distances and periphery distances consists of one centre and, "
  "for every zone, one periphery and one subcentre, at exactly the coordinates, radius, angle and width these parameters define. Its streets are exactly: periphery to "
  "subcentre of the same zone, subcentre to centre, and subcentre to the subcentres of the neighbouring zones, each in both directions and without duplicates for any n, "
  "and the reported distance of a street is the Euclidean distance of its ends.",
  ["inputs", "configurations"], "all numbers of zones, and all combinations of symmetric and asymmetric parameters",
  SMALL + "indices of zones, wrap-around of the ring and the interplay of the asymmetries only show for other n and combinations.",
  [G], [("build_from_parameters", G), ("__build_edges", G), ("__etha/Hi/Gi/angles_asymmetry", G), ("get_edges_distance", G)]),
 ("C02", "Invalid city parameters and parts are rejected, valid ones accepted",
  "Building a city, a place, a zone or a street fails with one of the library's exceptions when a parameter is out of its documented range (negative n, l, g or p; "
  "eccentricity outside [0,1] or without a valid zone; lists of the wrong length or with values out of range; a place of the wrong type), and succeeds for every "
  "combination of parameters inside the ranges, boundaries included.",
  ["inputs"], "all combinations of boundary values of every parameter",
  SMALL + "one bad parameter at a time in the middle of its range, at one position of a list.",
  [G], [("parameters_validator", G), ("Node/Zone/Edge constructors", G)]),
 ("C03", "A saved city reads back as the same city",
  "Writing a city to text or to a file and reading it back, from the text, the file or in any order of its lines, gives the same places (ids, names, types, zones, "
  "coordinates, widths), zones, streets, distances and construction parameters; this also holds for cities that were themselves imported with arbitrary ids and "
  "names in any alphabet, whatever the locale of the process.",
  ["inputs", "configurations", "histories"], "all cities, id schemes, line orders, media and locales",
  SMALL + "always the same well-ordered file with ASCII names.",
  [G], [("export_graph", G), ("graph_to_pajek_file", G), ("build_from_content", G), ("build_from_file", G)]),
 ("C04", "A malformed or truncated city file never yields a city",
  "Reading a city file that was cut at any point before its last line, or in which a line was dropped, duplicated or altered so that the ids, zones, types, "
  "counts, columns or numbers are no longer those of a complete city, raises an exception. It never returns a city that differs from the one the text describes, and a "
  "well-formed file is always read.",
  ["inputs", "crash_points"], "all truncations and all single and double alterations of a file",
  SMALL + "a few hand-written broken files.",
  [G], [("__pajekfile_to_dataframe", G), ("build_from_content", G)]),
 ("C05", "The demand matrix generated from (y, a, alpha, beta) follows the travel patterns",
  "A demand generated from total trips y and shares (a, alpha, beta) gives every origin-destination pair of every city exactly the trips of the documented formula "
  "(peripheries to the centre, to their own and to the other subcentres; subcentres to the centre and to the other subcentres; other pairs none), whatever the ids and the "
  "number of zones, so that the total is y. Parameters outside [0,1] or shares that exceed 1 are rejected and every valid combination is accepted.",
  ["inputs", "configurations"], "all numbers of zones, id schemes and share combinations, boundaries included",
  SMALL + "one city size and interior shares.",
  [D], [("build_from_parameters", D), ("parameters_validator", D)]),
 ("C06", "A history of edits of a demand matrix leaves exactly the edited values",
  "After any sequence of edits, the demand of a pair is the last value set for it and the initial value otherwise, the total equals the sum of the matrix, and "
  "edits with unknown places or negative trips are refused and change nothing. Two demands over the same city never influence each other.",
  ["histories"], "all edit histories over all pairs",
  SMALL + "one edit on one matrix.",
  [D], [("change_vij", D), ("get_total_trips", D), ("build_from_content", D)]),
 ("C07", "A saved demand matrix reads back as the same matrix; malformed lines are refused",
  "Writing a demand matrix to a file and reading it for the same city gives the same trips for every pair, in any order of the lines and with any ids. Lines with "
  "unknown places, negative or non-numeric trips or missing columns are refused with an exception instead of being skipped or misread.",
  ["inputs", "histories"], "all matrices, id schemes, line orders and kinds of malformed lines",
  SMALL + "one file that is written and read in order.",
  [D], [("matrix_to_file", D), ("build_from_file", D)]),
 ("C08", "A custom line is accepted exactly when it is a valid line of the city",
  "A line given by its outbound and return nodes and stops is accepted by a network exactly when both directions follow existing streets without repeating places, each "
  "ends where the other starts, and the stops of each direction belong to it and include its first and last place. Everything else is refused and leaves the network as it was.",
  ["inputs", "programs"], "all node sequences and stop subsets over small cities",
  SMALL + "a few lines; a fault in one direction or on the last street goes unnoticed.",
  [N], [("Route validators", N), ("add_route", N), ("__edges_validator", N)]),
 ("C09", "A history of building a network leaves exactly the lines and modes it describes",
  "After any sequence of adding and removing lines and modes, the network holds exactly the lines and modes the history leaves, in order of insertion; duplicate or unknown lines, "
  "a second mode of the same name and a third mode (or a second one when neither has a single parallel line) are refused without effect; removing a mode removes all its lines and removing a line keeps the others. The saved list of lines is exactly "
  "the lines of the network.",
  ["histories"], "all histories of operations up to a depth",
  SMALL + "histories of one or two operations.",
  [N, M], [("add_route/remove_route", N), ("add_transport_mode/remove_transport_mode", N), ("routes_to_file", N)]),
 ("C10", "The predefined line families cover the city along real streets",
  "For every city size, jump and short/express variant, the predefined feeder, radial, diametral, tangential and circular families contain exactly one line per zone (or per "
  "opposite pair) between the documented places, with stops at the ends only when express, along existing streets, with mirrored return directions and unique ids, so that all can be "
  "added to one network. Jumps outside 1..n/2 and rings of fewer than two zones are rejected.",
  ["inputs", "configurations"], "all n, jumps and variants",
  SMALL + "one city size; wrap-around and the halved last round of opposite zones differ per n.",
  [N], [("get_*_routes", N)]),
 ("C11", "Modes and passengers only ever hold valid values; mode catalogue histories",
  "A transport mode or a passenger profile never holds an invalid value: constructors and later assignments reject negative (or, where documented, zero or out-of-range) "
  "values and keep the previous one, objects never influence each other, and frequencies and stop capacity given per parallel line are held per mode (times d). After any "
  "history of additions and removals the catalogue of modes holds exactly the modes left, with unique names.",
  ["inputs", "histories"], "all one- and two-field deviations and all assignment and catalogue histories up to a depth",
  SMALL + "a few assignments on a single object.",
  [M, P], [("validated attributes", M), ("validated attributes", P), ("TransportModeManager", M)]),
 ("C12", "The graph of stops, lines and streets mirrors the network",
  "For every network the extended graph has exactly one stop per place and mode served, one node per line, direction and stop, access links in both directions, boarding links "
  "(not at a terminal) with the line's frequency divided by the parallel lines, alighting links with the transfer penalty (not at the first stop), and one riding link between consecutive stops whose time is the "
  "length of all streets travelled divided by the mode's speed. Building it changes neither city nor network.",
  ["programs", "configurations"], "all networks of up to three lines of many shapes, in several cities, and all family mixes",
  SMALL + "simple symmetric lines that stop everywhere.",
  [X], [("build nodes and edges", X)]),
 ("C13", "Travel strategies and their expected costs are optimal for every pair of places",
  "For every pair of places and network, the expected cost of travelling from every node equals the minimum over all travel strategies (walking to stops, waiting for any "
  "subset of lines that share a stop in proportion to the frequencies, riding, transferring with the penalty except at the destination), and the lines and links selected realise that cost and reach the destination. "
  "Lines with zero frequency are never used and unreachable nodes have infinite cost.",
  ["inputs", "programs", "configurations"], "all networks, frequencies and passenger profiles over a menu of interacting lines",
  SMALL + "hand-computed labels on three networks; the order of the updates and the subset of common lines depend on every frequency and length.",
  [H, X], [("build_hyperpath_graph", H)]),
 ("C14", "Elemental paths are complete, unconnected demand refused, queries independent",
  "The elemental paths reported for a pair are exactly the paths of the optimal strategy from each stop of the origin to the destination, each once. A demand with trips "
  "between places that no line connects is refused, every other demand yields strategies for exactly the pairs with trips, and answers do not depend on the queries made before; "
  "networks with more than two modes (or two modes with several parallel lines each) are refused.",
  ["programs", "histories"], "all networks over a menu of lines, all one and two pair demands, and all query histories up to a depth",
  SMALL + "one query per object.",
  [H], [("get_hyperpath_OD", H), ("get_all_hyperpaths", H), ("network_validator", H)]),
 ("C15", "Travellers of a place are split over its stops by walking and travel cost",
  "The shares of travellers of a place over its one or two stops add up to 100%, and each share is the part of the width of the place from which that stop (nearest of the parallel lines of its mode) "
  "is the cheaper one, counting walking time, access and expected cost of travel; a stop from which the destination is out of reach gets nobody.",
  ["inputs", "configurations"], "all cost differences around each indifference point, widths, numbers of parallel lines and valuations",
  SMALL + "a few cost differences for even numbers of parallel lines.",
  [A], [("get_assignment", A), ("share of the central mode", A)]),
 ("C16", "Boardings, alightings and loads of every line conserve travellers",
  "The boardings, alightings and load per vehicle reported for each line, direction and stop are those of all trips following their strategies, split at every stop in proportion to the "
  "running frequencies of the optimal lines: nobody appears or vanishes, loads are boardings less alightings along the line, and results are additive and proportional in demand. The most loaded section "
  "of a line is the maximum over both directions.",
  ["inputs", "programs", "configurations"], "all networks, demands, frequencies and profiles of a menu",
  SMALL + "single pairs on one symmetric network.",
  [A], [("get_alighting_and_boarding", A), ("most_loaded_section", A)]),
 ("C17", "What travellers spend is accounted once and completely",
  "The total access, waiting and in-vehicle time and the number of transfers are those of every traveller following the strategy of the pair: the walk and access to the first stop and the access of both modes when changing mode, waiting by combined frequency of the "
  "optimal lines and regularity of the mode, riding time, stop time while staying on board and half of the alighting time. Transfers equal boardings less trips, and the user cost is the sum of the four weighted by the "
  "social values of time.",
  ["inputs", "programs", "configurations"], "all networks, mode parameters, demands, frequencies and profiles of a menu",
  SMALL + "totals of one symmetric network without transfers between modes.",
  [UC], [("resources_consumer", UC), ("get_users_cost", UC)]),
 ("C18", "Cycle time and operating cost follow the lines and their stops",
  "The cycle time of every line is the running time over all streets of both directions plus, per stop and direction, the time to board and alight (the larger of both when "
  "simultaneous, the sum otherwise); the operating cost is the sum over lines of fleet times the cost per vehicle with its capacity. Both hold for all tables of boardings, including stops where only one of the two occurs.",
  ["inputs", "programs"], "all line shapes, all small tables of boardings and alightings, and loaded networks of a menu",
  SMALL + "symmetric lines where every stop has both.",
  [OC], [("lines_travel_time", OC), ("get_cycle_time", OC), ("get_operators_cost", OC)]),
 ("C19", "Infrastructure counts every street used by a running line once per mode",
  "The length equipped for a mode is the number of parallel lines times the length of the distinct streets that at least one running line of the mode uses in either direction, whatever the number, order and "
  "direction of the lines; lines without service count nothing; the cost is the sum over modes of length times unit cost.",
  ["programs", "configurations"], "all pairs and triples of line shapes, running subsets and building histories",
  SMALL + "networks where lines overlap in one way.",
  [IC], [("get_mode_network_distance", IC), ("get_infrastruture_cost", IC)]),
 ("C20", "Capacity constraints measure vehicles and stops correctly",
  "The constraints are, for every line, the load of its most loaded section less the vehicle capacity of its mode, and, for every street direction and mode, the total frequency of the mode's lines over it per parallel line less "
  "the limit of a stop; they are all non-positive exactly when no vehicle is overfull and no stop oversaturated.",
  ["inputs", "programs", "configurations"], "all pairs of line shapes and families, frequencies on both sides of the limits, loaded networks",
  SMALL + "one line per street and direction.",
  [CN], [("most_loaded_section_constrains", CN), ("fmax_constrains", CN)]),
 ("C21", "The optimisation returns the best valid round, for every answer of the solver",
  "Whatever the numerical solver answers, every round hands it the problem under the travel strategies of the previous round's frequencies, started from the initial frequencies of the modes and with non-negative frequencies; "
  "rounds stop when the frequencies move less than the tolerance in total or after the first round plus the given number of iterations. The result is the cheapest round that ended normally (status 1 or 2), within 0.001 of the constraints and without negative frequencies, with frequencies "
  "below one vehicle a day (1/24 per hour) set to zero, and an exception says so when there is none.",
  ["fault_sequences", "histories"], "all sequences of solver answers up to the bound",
  "The optimisation loop has no test, and a real solver produces only a few of the possible answers.",
  [OP], [("external_optimization", OP), ("internal_optimization", OP), ("get_better_result", OP), ("status_optimization", OP), ("network_optimization", OP)]),
 ("C22", "Reported results are those of the network at the optimal frequencies",
  "The report of every line (frequency, per parallel line, vehicle capacity, fleet, cycle time, cost per boarding, least load and load of every section relative to the most loaded one) and the overall report (costs, times and transfers per trip; fleet, capacity and lines per mode) are those of the "
  "network evaluated at the resulting frequencies, for circular lines, lines without travellers and lines without service too. Text and file hold the same figures, reporting changes nothing, and without a result reports are refused.",
  ["programs", "configurations", "histories"], "all networks, demands and frequencies of a menu",
  "The reports have no test.",
  [OP], [("get_network_results", OP), ("get_overall_results", OP), ("string_* and write_file_network_results", OP), ("last_iteration", OP)]),
 ("C23", "Optimised cost and constraints are their parts, whatever was asked before",
  "For every network, demand and profile, the cost being minimised is operators plus infrastructure plus users cost at the given frequencies under fixed strategies, and the constraints are those of vehicles followed by those of stops, in the order of the lines. "
  "Neither depends on earlier evaluations, reports or other optimisations over the same objects, and evaluating changes none of the inputs.",
  ["histories", "programs"], "all networks of a menu, and all histories of questions to two optimisers up to a depth",
  "The optimiser has no test; interference needs a history of several calls.",
  [OP, UC, OC, IC, CN], [("VRC", OP), ("get_constrains", OP), ("f0/fopt_to_f", OP)]),
 ("C24", "Printed descriptions say what the graph, strategies and results are",
  "The printed extended graph, strategies, elemental paths, summary of all pairs, boardings and alightings, and summaries of one round and of the whole optimisation contain every stop, line, direction, link and path of the object they describe exactly once, "
  "with its figures in the unit printed next to them (minutes, vehicles per hour, travellers per vehicle), for every network, also for stopped lines and unreachable places. Printing changes nothing, and printing twice gives the same text.",
  ["inputs", "programs", "configurations"], "all networks, frequencies, profiles and pairs of places of a menu, and all combinations of outcomes of a round",
  "The printed descriptions have no test.",
  [X, H, A, OP], [("__str__", X), ("string_hyperpath_graph, string_hyperpaths_OD, string_all_hyperpaths", H), ("str_boarding_alighting", A), ("string_*_optimization", OP)]),
 ("C25", "Results depend on the system described, not on names, order, position or units",
  "Travel costs, shares, boardings, loads, costs, constraints and reports of a system (city, lines, frequencies, demand, profile) move exactly with the description when places, lines and modes are renumbered or renamed, when lines, places, trips or zones are "
  "listed in another order, when the city is turned or mirrored, when lengths with speeds or money are given in another unit, when a line is described from its other end, when a line without service is added, and when city and demand go through files. "
  "Trips with two equally good ways to travel are left out.",
  ["inputs", "configurations"], "all permutations of the lines and all transformations of a menu, of all networks and demands of a menu",
  SMALL + "one description of each system; two descriptions of the same system are never compared.",
  [OP, X, H, A, UC, OC, IC, CN], [("network evaluation", OP), ("graph, strategies, shares", X), ("costs", UC)]),
 ("C26", "Pictures show exactly the city, lines, directions and paths asked for",
  "A picture of a city shows every place once at its coordinates with its id, the kinds told apart, and every street. A picture of a network shows besides exactly the streets used and the stops of the requested lines (all when not given) in the requested direction (both when not given), "
  "and of a strategy exactly the places, stops, lines and links of its paths. This holds for every city, also without zones, and whatever was drawn before; an unknown line is refused without a picture, and drawing changes nothing.",
  ["inputs", "programs", "histories"], "all sizes of cities, all selections of lines and directions, and all sequences of pictures up to a length",
  "Pictures have no test.",
  [G, N, H], [("Graph.plot", G), ("TransportNetwork.plot", N), ("Hyperpath.plot", H)]),
 ("C27", "The optimised frequencies are feasible, and no others are clearly cheaper",
  "With the real solver, the result of the optimisation satisfies all constraints of vehicles and stops within 0.001, its cost is the cost of the network at these frequencies (under the travel strategies of its round), and no other feasible frequencies are cheaper by more than 0.2%, "
  "including the initial ones. A network of a single line whose initial frequency is feasible always has a result. (Demands of only a few trips an hour, which the solver's tolerance of 0.01 cannot resolve, are left out.) The same optimisation asked again gives the same result, and the inputs are left as they were.",
  ["inputs", "configurations"], "all frequency vectors of a fine grid around every result and of a coarse grid over the whole range",
  "The optimisation has no test, and comparing with one remembered number would not show that it is the best one.",
  [OP, CN], [("internal_optimization", OP), ("network_optimization", OP), ("VRC/get_constrains", OP)]),
]

TECH = {"C06": "explicit-state BFS over edit histories of the real class, reference model compared in every state",
        "C09": "explicit-state BFS over building histories of the real class, reference model compared in every state",
        "C11": "exhaustive enumeration of values plus BFS over assignment and catalogue histories",
        "C21": "stateless exploration of all solver answer sequences (environment model) driving the real loop",
        "C25": "exhaustive enumeration of transformations of systems, relating two executions of the real code",
        "C26": "exhaustive enumeration of selections and of picture histories, judging the content of the figure",
        "C27": "real optimisations, each judged by enumerating every point of frequency grids",
        "C23": "stateless exploration of all question histories and network configurations against a reference model"}
DEFAULT = "stateless exhaustive exploration of bounded inputs on the real code against a reference model"
NOTE = ("Every execution inside the bounds written in the evidence file is run on the implementation itself and compared with an independent reference model; no sampling. "
        "Trusts the reference model and says nothing about values outside the menus.")


CHANGED = " The same holds after lines came and went, a mode was altered or the same lines were entered in another city: earlier answers never leak into later ones."
AFTER = ("C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22")
LARGE = ("C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24")
for k, p in enumerate(PROPS):
    if p[0] in AFTER:
        over = p[3] + ([] if "histories" in p[3] else ["histories"])
        PROPS[k] = p[:2] + (p[2] + CHANGED, over, p[4] + ", and all histories of changes of a network up to a length") + p[5:]
for k, p in enumerate(PROPS):
    if p[0] in LARGE:
        PROPS[k] = p[:4] + (p[4] + "; in cities of up to nine zones with lines of up to 19 stops, in networks of up to 36 lines, and with very small and very large lengths, speeds and frequencies",) + p[5:]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for i, t, s, over, q, why, files, mech in PROPS:
            assert len(t) <= 80, (i, len(t))
            fh.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                 "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m py_compile check.py && mkdir -p evidence replays",
           "checks": [{"property": p[0], "quick_cmd": "python3 check.py %s --tier quick" % p[0], "thorough_cmd": "python3 check.py %s --tier thorough" % p[0],
                       "technique": TECH.get(p[0], DEFAULT), "level": "model_checking", "level_note": NOTE} for p in PROPS],
           "not_applicable": [],
           "notes": "No hooks in /repo. Genuine defects found are repaired by the fix: commits listed in known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
