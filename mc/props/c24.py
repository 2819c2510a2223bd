"""C24 text descriptions of graph, strategies, boardings and optimisation"""
import re
from types import SimpleNamespace
from world import *
from c16 import FH, FE
from sidermit.optimization.optimizer import Optimizer

NUM = r"(-?(?:inf|nan|[\d.]+(?:e[+-]?\d+)?))"


def num(ctx, text, want, what, digits=2):
    ctx.check(re.fullmatch(NUM, text.strip()) is not None, "%s is not a number" % what, text=text)
    x = float(text)
    ok = x == want or abs(x - want) <= 0.501 * 10 ** -digits + 1e-9 * abs(want)
    ctx.check(ok, "%s as printed" % what, text=text, value=want)


def namer(w):
    names = {int(o.id): o.name for o in w.g.get_nodes()}
    assert len(set(names.values())) == len(names)
    return names


def fields(block):
    """'-name: value' lines of a block"""
    return {m.group(1).lower(): m.group(2) for m in re.finditer(r"^\s*-([^:\n]+): ?(.*)$", block, re.M)}


def graph_text(ctx, w, f, tp, eg, what):
    """the description of the graph, read back, is the graph"""
    names = namer(w)
    txt = str(eg)
    nodes, edges = ref_graph(w, f, tp)
    time = {(a, b): t for a, b, t, _, _ in edges}
    freq = {(a, b): x for a, b, _, x, k in edges if k == "BOARDING"}
    into = {b: a for a, b, _, _, k in edges if k == "ROUTE"}
    got = []
    for city_part in txt.split("City node\n")[1:]:
        head, *stops = city_part.split("Access edge\n")
        place = fields(head)["graph node name"]
        for s in stops:
            acc, rest = s.split("Stop node\n")
            at = float(re.search(NUM + r" \[min\]", fields(acc)["access time"]).group(1))
            first, *routes = re.split(r"^\t\t\t(?=Boarding|Alighting|\tRoute)", rest, flags=re.M)
            stop = (place, fields(first)["mode name"])
            got.append(("stop",) + stop + (at,))
            bo, al = None, None
            for r in routes:
                v = fields(r)
                if r.startswith("Boarding"):
                    ctx.check(bo is None, "two boardings of one line (%s)" % what, text=txt)
                    bo = float(re.search(NUM + r" \[veh/h\]", v["frequency"]).group(1))
                elif r.startswith("Alighting"):
                    ctx.check(al is None, "two alightings of one line (%s)" % what, text=txt)
                    al = float(re.search(NUM + r" \[min\]", v["penalty transfer"]).group(1))
                else:
                    got.append(("line",) + stop + (v["route_id"], v["direction"], bo, al, v["previous stop"],
                                                   float(re.search(NUM + r" \[hrs\]", v["time to previous stop"]).group(1))))
                    bo = al = None
    want = []
    for n in nodes:
        if n[0] == "s":
            want.append(("stop", names[n[2]], n[1], time[("c", n[2]), n] * 60))
        elif n[0] == "r":
            s = ("s", w.line[n[1]].mode.name, n[3])
            b, a, p = freq.get((s, n)), time.get((n, s)), into.get(n)
            want.append(("line", names[n[3]], s[1], str(n[1]), n[2], b, None if a is None else a * 60, names[p[3]] if p else "no data",
                         time[p, n] if p else 0.0))
    k = lambda t: str([x for x in t if isinstance(x, str)])
    got.sort(key=k)
    want.sort(key=k)
    ctx.equal([k(t) for t in got], [k(t) for t in want], "stops and lines described (%s)" % what)
    for g, x in zip(got, want):
        for a, b in zip(g, x):
            if isinstance(b, str) or b is None or a is None:
                ctx.equal(a, b, "%s as described (%s)" % (k(x), what))
            else:
                ctx.check(abs(a - b) <= 0.00501 + 1e-9 * abs(b), "figure of %s as described (%s)" % (k(x), what), got=g, want=x)
    places = [fields(p)["graph node name"] for p in txt.split("City node\n")[1:]]
    ctx.check(len(places) == len(set(places)) and set(places) >= {names[n[1]] for n in nodes if n[0] == "c"},
              "places described (%s)" % what, places=places)
    ctx.equal(str(eg), txt, "the description changes when it is asked again (%s)" % what)
    ctx.validated()


def full(names, n, sep=": "):
    return {"c": lambda: "Citynode: %s" % names[n[1]], "s": lambda: "Stopnode %s: %s" % (n[1], names[n[2]]),
            "r": lambda: "Routenode %s %s: %s" % (n[1], n[2], names[n[3]])}[n[0]]()


def keyed(d):
    """what a strategy says, default entries aside"""
    return sorted((str(key(n)), [(str(key(e.nodei)), str(key(e.nodej)), e.type.name) for e in v]) for n, v in list(d.items()) if v)


def keyed_num(d):
    return sorted((str(key(n)), v) for n, v in list(d.items()) if v)


def strategy_text(ctx, w, hp, suc, lab, fre, what):
    names = namer(w)
    before = (keyed(suc), keyed_num(lab), keyed_num(fre))
    labels = {key(n): lab[n] for n in list(lab)}
    succ = {key(n): [(key(e.nodei), key(e.nodej), e.type.name) for e in suc[n]] for n in list(suc)}
    freq = {key(n): fre[n] for n in list(fre)}
    txt = hp.string_hyperpath_graph(suc, lab, fre)
    got = {}
    for blk in re.split(r"^(?=(?:City|Stop|Route)_node)", txt, flags=re.M)[1:]:
        v = fields(blk)
        t = blk.split("_node")[0]
        k = (t, v["graph_node_name"]) + ((v["mode_name"],) if t == "Stop" else (v["route_id"], v["direction"]) if t == "Route" else ())
        ctx.check(k not in got, "a node described twice (%s)" % what, node=k)
        got[k] = v
    want = {}
    for n in labels:
        k = {"c": lambda: ("City", names[n[1]]), "s": lambda: ("Stop", names[n[2]], n[1]),
             "r": lambda: ("Route", names[n[3]], str(n[1]), n[2])}[n[0]]()
        want[k] = n
    ctx.equal(sorted(got), sorted(want), "nodes of the strategy described (%s)" % what)
    for k, n in want.items():
        v = got[k]
        num(ctx, v["label"], labels[n], "cost from %s (%s)" % (n, what))
        num(ctx, v["frequencies"], freq.get(n, 0.0), "frequency at %s (%s)" % (n, what))
        links = sorted(re.findall(r"\[(?:\w+\.)?(\w+): (.*?) - (.*?)\]", v["successor"]))
        ctx.equal(links, sorted((t, full(names, a), full(names, b)) for a, b, t in succ.get(n, [])), "links taken from %s (%s)" % (n, what))
    ctx.equal(hp.string_hyperpath_graph(suc, lab, fre), txt, "the same text asked twice (%s)" % what)
    ctx.check((keyed(suc), keyed_num(lab), keyed_num(fre)) == before, "describing a strategy changed it (%s)" % what)
    ctx.validated()


def paths_text(ctx, w, hp, paths, lab, what):
    names = namer(w)
    view = lambda: sorted((str(key(s)), [[key(n) for n in p] for p in paths[s]]) for s in list(paths) if paths[s])
    before = (view(), keyed_num(lab))
    want = []
    for s in list(paths):
        for p in paths[s]:
            want.append((key(s)[1], [(key(n), lab[n]) for n in p]))
    txt = hp.string_hyperpaths_OD(paths, lab)
    got = []
    for part in re.split(r"^(?=\S.* stop$)", txt, flags=re.M)[1:]:
        md = part.split(" stop\n")[0]
        for p in part.split("New Path:")[1:]:
            got.append((md, re.findall(r"\[(City|Stop|Route)_node (.*): (\S+)\]", p)))

    def show(n):
        return {"c": lambda: ("City", names[n[1]]), "s": lambda: ("Stop", "%s - %s" % (n[1], names[n[2]])),
                "r": lambda: ("Route", "%s %s - %s" % (n[1], n[2], names[n[3]]))}[n[0]]()
    got.sort(key=lambda t: str((t[0], [x[:2] for x in t[1]])))
    want = sorted([(m, [show(n) + (x,) for n, x in p]) for m, p in want], key=lambda t: str((t[0], [x[:2] for x in t[1]])))
    ctx.equal([(m, [x[:2] for x in p]) for m, p in got], [(m, [x[:2] for x in p]) for m, p in want], "paths described (%s)" % what)
    for (_, p), (_, q) in zip(got, want):
        for a, b in zip(p, q):
            num(ctx, a[2], b[2], "cost from %s (%s)" % (a[:2], what), 4)
    ctx.equal(hp.string_hyperpaths_OD(paths, lab), txt, "the same text asked twice (%s)" % what)
    ctx.check((view(), keyed_num(lab)) == before, "describing paths changed them (%s)" % what)
    ctx.validated()


def all_text(ctx, w, r, what):
    names = namer(w)
    txt = Hyperpath.string_all_hyperpaths(r.hs, r.ls, r.ss, r.vs)
    got = re.findall(r"origin: (.*), destination: (.*), vij: (\S+)\s+mode: (.*), label: (\S+) \[EIV\].*?paths: (\d+),.*?: (\d+)$", txt, re.M)
    want = []
    for o in list(r.hs):
        for d in list(r.hs[o]):
            for s in list(r.hs[o][d]):
                if r.hs[o][d][s]:
                    want.append((names[key(o)[1]], names[key(d)[1]], r.trips_of[key(o)[1], key(d)[1]], key(s)[1], r.ls[o][d][s], len(r.hs[o][d][s]), len(r.ss[o][d][s])))
    k = lambda t: (t[0], t[1], t[3])
    got.sort(key=k)
    want.sort(key=k)
    ctx.equal([k(x) for x in got], [k(x) for x in want], "pairs and stops described (%s)" % what)
    for a, b in zip(got, want):
        num(ctx, a[2], b[2], "trips of %s (%s)" % (k(b), what))
        num(ctx, a[4], b[4], "cost of %s (%s)" % (k(b), what))
        ctx.equal((int(a[5]), int(a[6])), b[5:], "paths and links of %s (%s)" % (k(b), what))
    ctx.equal(Hyperpath.string_all_hyperpaths(r.hs, r.ls, r.ss, r.vs), txt, "the same text asked twice (%s)" % what)
    ctx.validated()


def boarding_text(ctx, w, z, v, what):
    names = namer(w)
    view = lambda t: sorted((a, d, str(key(s)), t[a][d][s]) for a in list(t) for d in list(t[a]) for s in list(t[a][d]))
    before = (view(z), view(v))
    txt = Assignment.str_boarding_alighting(z, v)
    got = {}
    for part in txt.split("New route: ")[1:]:
        rid = part.split("\n")[0]
        m = re.search(r"Boarding:(.*?)Alighting:(.*)", part, re.S)
        ctx.check(m is not None, "a line without boardings and alightings (%s)" % what, text=part)
        for nm, sect in (("boarding", m.group(1)), ("alighting", m.group(2))):
            for q in re.split(r"Direction: ", sect)[1:]:
                d = q.split("\n")[0].strip()
                for st, x in re.findall(r"Stop (.*): (\S+)\[pax/veh\]", q):
                    ctx.check((nm, rid, d, st) not in got, "a stop described twice (%s)" % what, stop=(nm, rid, d, st))
                    got[nm, rid, d, st] = x
    want = {}
    for nm, t in (("boarding", z), ("alighting", v)):
        for a in list(t):
            for d in list(t[a]):
                for s in list(t[a][d]):
                    want[nm, str(a), d, "%s-%s" % (key(s)[1], names[key(s)[2]])] = t[a][d][s]
    for k in set(got) | {k for k, x in want.items() if x}:
        ctx.check(k in got, "a stop is missing (%s)" % what, stop=k, text=txt)
        num(ctx, got[k], want.get(k, 0.0), "%s %s (%s)" % (k, "of pax/veh", what))
    ctx.equal(Assignment.str_boarding_alighting(z, v), txt, "the same text asked twice (%s)" % what)
    after = (view(z), view(v))
    ctx.check([x for t in after for x in t if x[3]] == [x for t in before for x in t if x[3]], "describing boardings changed them (%s)" % what)
    ctx.validated()


def stages(ctx):
    net = ctx.choose("network", list(NETWORKS))
    shape = ctx.choose("city", ["ids", "asym"])
    fh = ctx.choose("frequencies", list(FH))
    md = ctx.choose("modes", [{}, dict(bus=dict(tat=2.25, d=3), metro=dict(tat=0.5))])
    pn = ctx.choose("passenger", list(PSETS) if ctx.thorough else (["default", "no penalty"] if shape == "ids" else ["sprinter"]))
    w = network(net, shape, **md)
    f = w.freqs(FH[fh])
    ps = passenger(**PSETS[pn])
    what = "%s %s %s %s" % (net, shape, fh, pn)
    ctx.state((what, repr(md)))
    described(ctx, w, f, ps, what)
    ctx.outcome = fh


def described(ctx, w, f, ps, what, some=None):
    trips = trips_of(w, "all", f, ps)
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    graph_text(ctx, w, f, ps.pt, eg, what)
    hp = Hyperpath(eg, ps)
    cn = city_nodes(eg)
    served = {n[1] for n in ref_graph(w, f, ps.pt)[0] if n[0] == "c"}
    for a, b in [(a, b) for a in w.sym for b in w.sym if a != b and {w.sym[a], w.sym[b]} <= served][::some or 1]:
        o, d = w.sym[a], w.sym[b]
        ctx.step((a, b))
        suc, lab, fre = hp.build_hyperpath_graph(cn[o], cn[d])
        strategy_text(ctx, w, hp, suc, lab, fre, "%s %s-%s" % (what, a, b))
        paths, lab, suc, fre = hp.get_hyperpath_OD(cn[o], cn[d])
        paths_text(ctx, w, hp, paths, lab, "%s %s-%s" % (what, a, b))
        strategy_text(ctx, w, hp, suc, lab, fre, "%s %s-%s" % (what, a, b))
    ctx.equal(len(trips) > 0, True, "a network without trips")
    for dm in ["all", "mixed"]:
        tr = trips if dm == "all" else trips_of(w, "far" if some == 9 else dm, f, ps)
        if not tr:
            continue
        r = Run(w, f, ps, tr)
        r.trips_of = {(w.sym[a], w.sym[b]): v for (a, b), v in tr.items()}
        all_text(ctx, w, r, what + " " + dm)
        for fe in FE:
            fr = f if FE[fe] is None else w.freqs(FE[fe] * 6)
            z, v, l = Assignment.get_alighting_and_boarding(r.vs, r.hs, r.ss, r.asg, fr)
            boarding_text(ctx, w, z, v, "%s %s %s" % (what, dm, fe))
            z2, v2, l2 = Assignment.get_alighting_and_boarding(r.vs, r.hs, r.ss, r.asg, fr)
            for x, y in ((z2, z), (v2, v), (l2, l)):
                compare_map(ctx, flat(x), flat(y), "boardings after describing them (%s)" % what, 1e-9)
    graph_text(ctx, w, f, ps.pt, eg, what)


MESSAGES = ["`gtol` termination condition is satisfied.", "done", ""]


def outcome(ctx):
    """the summaries of one round and of the whole optimisation"""
    net = ctx.choose("network", ["radial", "ring", "competing", "asymmetric"])
    w = network(net)
    k = len(w.lines)
    x = ctx.choose("frequencies", [[12.345, 0.0, 7.0, 104.5, 3.25], [0, 0.04, 1e-9, 28, 6], [-0.06, 33.333, 2.675, 1e3, 0.5]])[:k]
    success = ctx.choose("success", [True, False])
    status = ctx.choose("status", [0, 1, 2, 3])
    msg = ctx.choose("message", MESSAGES)
    viol = ctx.choose("violation", [0.0, 3.25e-05, 17.5])
    fun = ctx.choose("value", [1234.5678, 0.25, 1e7])
    ctx.step()
    ctx.state((net, tuple(x), success, status, msg, viol, fun))
    ps = passenger()
    opt = Optimizer(w.g, demand(w, trips_of(w, "mixed", w.freqs(FH["even"]), ps)), ps, w.net, w.freqs(FH["even"]))
    given = (list(x), success, status, msg, viol, fun)
    txt = opt.string_network_optimization(given)
    ctx.equal(given, (list(x), success, status, msg, viol, fun), "describing a result changed it")
    head, freqs = txt.split("Frequency information [veh/hr]:")
    v = {m.group(1).strip(): m.group(2) for m in re.finditer(r"^\s*([^:\n]+): ?(.*)$", head, re.M)}
    ctx.equal((v["Success"], v["Status"], v["Message"]), (str(success), str(status), msg), "outcome described")
    ctx.close(float(v["Max constrain violation"]), viol, "violation described")
    ctx.close(float(v["VRC"]), fun, "cost described")
    got = re.findall(r"^\s*(\S.*): (\S+)$", freqs, re.M)
    ctx.equal([a for a, _ in got], [r.id for r in w.net.get_routes()], "lines of the result")
    for (a, t), y in zip(got, x):
        num(ctx, t, y, "frequency of %s" % a)
    import numpy as np
    res = SimpleNamespace(success=success, status=status, message=msg, x=np.array(x, dtype=float), constr_violation=viol, fun=fun, nit=3)
    txt = Optimizer.string_information_internal_optimization(res)
    ctx.check([(res.success, res.status, res.message, res.constr_violation, res.fun)] == [(success, status, msg, viol, fun)] and
              list(res.x) == list(map(float, x)), "describing a round changed it")
    v = {m.group(1).strip(): m.group(2) for m in re.finditer(r"^\s*(Success|Status|Message|new_f|Constrain violation|VRC): ?((?:.*)(?:\n [^\t]*)*)$", txt, re.M)}
    ctx.equal((v["Success"], v["Status"], v["Message"]), (str(success), str(status), msg), "outcome of a round described")
    ctx.close(float(v["Constrain violation"]), viol, "violation of a round described")
    ctx.close(float(v["VRC"]), fun, "cost of a round described")
    ctx.equal(len(v["new_f"].strip("[]").split()), k, "frequencies of a round described")
    for t, y in zip(v["new_f"].strip("[]").split(), x):
        ctx.close(float(t), y, "frequency of a round described", rel=1e-5)
    ctx.validated()


def pairs(ctx):
    """the description of two lines of any shapes, sharing their stops or their first street"""
    a = ctx.choose("line", line_names(3))
    b = ctx.choose("other line", line_names(3))
    if a == b:
        ctx.prune()
    same = ctx.choose("same mode", [True, False] if ctx.thorough else [True])
    shape = ctx.choose("city", ["ids", "asym"] if ctx.thorough else ["asym"])
    slow = mode("slow", v=9.0, tat=0.25)
    w = World(city(3, shape=shape), [(a, slow), (b, slow if same else bus_(tat=0.3))])
    f = w.freqs([7.25, 3.4])
    ctx.step()
    ctx.state((a, b, shape, same))
    what = "%s, %s" % (a, b)
    ps = passenger()
    eg = ExtendedGraph(w.g, w.net.get_routes(), ps.pt, f)
    # vehicles are slow, so that hours printed with two decimals tell streets apart
    graph_text(ctx, w, f, ps.pt, eg, what)
    ctx.outcome = len(w.net.get_routes())


HARNESSES = [("stages", stages), ("pairs", pairs), ("sizes", sizes(lambda ctx, w, f, what: described(ctx, w, f, passenger(), what, 3))), ("dozens of lines", many(lambda ctx, w, f, what: described(ctx, w, f, passenger(), what, 5))), ("large city", large(lambda ctx, w, f, what: described(ctx, w, f, passenger(), what, 9))), ("outcome", outcome), ("twins", twins(lambda ctx, w, f, what: described(ctx, w, f, passenger(), what, 3)))]
BOUNDS = {"quick": "18 networks x 2 cities x 3 frequency patterns x 2 mode parameter sets x 1-2 profiles x every pair of served places; 2 demands x 3 running "
                   "frequency patterns; every pair of different line shapes that fit three zones; 2592 results of the solver; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones; networks of 25-36 lines; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn", "thorough": "4 passenger profiles everywhere; pairs in the same and in different modes, two cities"}
ASSUMPTIONS = ["the order of the parts of a text and the number of decimals beyond two are not part of the property"]
