"""C25 results depend on the system described, not on names, order, position or units

Every system is plain data.  Each transformation maps the data and says how the results must move; the implementation computes both."""
import itertools
from world import *
from c16 import FH
from c17 import MODS
from c23 import vector
from sidermit.optimization.optimizer import Optimizer


def tied(w, f, ps, o, d, graph):
    """two optimal ways to go on from some node on the way: which one is taken is not determined"""
    lab, board, out = ref_labels(w, f, ps, o, d, graph)
    close = lambda a, b: abs(a - b) <= 1e-7 * max(1.0, abs(a))
    todo = [n for n in graph[0] if n[0] == "s" and n[2] == o and lab[n] < INF]
    seen = set(todo)
    while todo:
        n = todo.pop()
        nxt, best = [], 0
        if board[n] < INF and close(board[n], lab[n]):
            best += 1
            for j, t, fr, ty in out[n]:
                if ty == "BOARDING" and fr > 0 and lab[j] < INF:
                    if close(t + lab[j], board[n]):
                        return True
                    if t + lab[j] < board[n]:
                        nxt.append(j)
        for j, t, fr, ty in out[n]:
            if ty != "BOARDING" and lab[j] < INF and close(t + lab[j], lab[n]):
                best += 1
                nxt.append(j)
        if best > 1:
            return True
        for j in nxt:
            if j not in seen and j != ("c", d):
                seen.add(j)
                todo.append(j)
    return False


# ------------------------------------------------------------------ systems as data
def data_of(net, shape, mk, fh, dm, pn):
    w = network(net, shape, **MODS[mk])
    return as_data(w, w.freqs(FH[fh]), MODS[mk], PSETS[pn], dm)


def as_data(w, f, mods, ps, dm):
    pax = passenger(**ps)
    trips = trips_of(w, dm, f, pax)
    graph = ref_graph(w, f, pax.pt)
    trips = {k: v for k, v in trips.items() if not tied(w, f, pax, w.sym[k[0]], w.sym[k[1]], graph)}
    nodes = [(int(o.id), o.name, float(o.x), float(o.y), kind(o), int(o.zone_id), float(o.width)) for o in w.g.get_nodes()]
    base = {"bus": dict(name="bus", d=4, theta=0.7, tat=0.3, bya=1, v=20.0, t=2.5, kmax=160.0, fmax=150.0, co=8.61, c1=0.15, c2=0.0, fini=28.0),
            "metro": dict(name="metro", d=1, theta=0.5, tat=1, bya=0, v=40.0, t=0.33, kmax=1440.0, fmax=40.0, co=80.91, c1=0.3, c2=933.15, fini=28.0)}
    for k, x in mods.items():
        base[k] = dict(base[k], **x)
    used = []
    for ln in w.lines:
        if ln.mode.name not in used:
            used.append(ln.mode.name)
    return {"nodes": nodes, "modes": {k: base[k] for k in used},
            "lines": [dict(id=ln.id, mode=ln.mode.name, nodes=dict(ln.nodes), stops=dict(ln.stops), circular=ln.circular, f=float(f[ln.id])) for ln in w.lines],
            "trips": [(w.sym[a], w.sym[b], float(v)) for (a, b), v in trips.items()],
            "ps": dict(dict(va=4.0, pv=2.74, pw=5.48, pa=8.22, pt=16, spv=2.5, spw=5.0, spa=8.0, spt=12), **ps)}


def build(s):
    g = Graph.build_from_content(pajek([(i, n, repr(x), repr(y), t, z, p) for i, n, x, y, t, z, p in s["nodes"]]))
    modes = {}
    for k, m in s["modes"].items():
        modes[k] = mode(**m)
    net = TransportNetwork(g)
    j = lambda q: ",".join(map(str, q))
    f = defaultdict(float)
    for ln in s["lines"]:
        t = RouteType.CIRCULAR if ln["circular"] else RouteType.CUSTOM
        net.add_route(Route(ln["id"], modes[ln["mode"]], j(ln["nodes"]["I"]), j(ln["nodes"]["R"]), j(ln["stops"]["I"]), j(ln["stops"]["R"]), t))
        f[ln["id"]] = ln["f"]
    d = Demand(g)
    for a, b, v in s["trips"]:
        d.change_vij(a, b, v)
    return g, net, d, passenger(**s["ps"]), f


def results(s, via=None):
    """everything that is computed for a system, by keys of the system"""
    g, net, d, ps, f = via(s) if via else build(s)
    opt = Optimizer(g, d, ps, net, f)
    x = [f[r.id] for r in net.get_routes()]
    out = {("vrc",): float(opt.VRC(x))}
    con = list(opt.get_constrains(x))
    ids = [r.id for r in net.get_routes()]
    for i, c in zip(ids, con):
        out["seats", i] = float(c)
    assert len(con) == len(ids) + len(g.get_edges()) * len(net.get_modes()), "constraints of the stops"
    # no order of the streets and modes is promised
    out["stops",] = tuple(sorted(float(c) for c in con[len(ids):]))
    for o in list(opt.hyperpaths):
        for dd in list(opt.hyperpaths[o]):
            a, b = key(o)[1], key(dd)[1]
            out["trips", a, b] = float(opt.Vij[o][dd])
            for st in list(opt.hyperpaths[o][dd]):
                m = key(st)[1]
                out["share", a, b, m] = float(opt.assignment[o][dd][st])
                out["cost", a, b, m] = float(opt.labels[o][dd][st])
    opt.better_res = (x, True, 1, "done", 0.0, 1.0)
    for row in opt.get_network_results():
        for nm, v in zip(("F", "f", "k", "B", "tc", "co", "load"), row[1:8]):
            out["row", row[0], nm] = float(v)
        for dr, tab in zip("IR", row[8:10]):
            for i, jj, v in tab:
                out["table", row[0], dr, int(i), int(jj)] = float(v)
    z, v, l = Assignment.get_alighting_and_boarding(opt.Vij, opt.hyperpaths, opt.successors, opt.assignment, f)
    for nm, t in (("z", z), ("v", v), ("l", l)):
        for (r, dr, st), y in flat(t).items():
            out[nm, r, dr, st[2]] = y
    o = opt.get_overall_results()
    for nm in ("VRC", "operators_cost", "infrastructure_cost", "users_cost", "travel_time_on_board", "waiting_time", "access_time", "transfers"):
        out["overall", nm] = float(o[nm])
    for nm in ("vehicles_mode", "vehicle_capacity_mode", "lines_mode"):
        for m in list(o[nm]):
            out["mode", nm, m.name] = float(o[nm][m])
    return out


def moved(out, line=lambda x: x, md=lambda x: x, place=lambda x: x, dr=lambda x: x, value=lambda k, v: v):
    """the results of the original in the terms of the transformed system"""
    r = {}
    for k, v in out.items():
        v = value(k, v)
        t = k[0]
        if t in ("seats",):
            k = (t, line(k[1]))
        elif t == "row":
            k = (t, line(k[1]), k[2])
        elif t in ("trips",):
            k = (t, place(k[1]), place(k[2]))
        elif t in ("share", "cost"):
            k = (t, place(k[1]), place(k[2]), md(k[3]))
        elif t == "table":
            k = (t, line(k[1]), dr(k[2]), place(k[3]), place(k[4]))
        elif t in ("z", "v", "l"):
            k = (t, line(k[1]), dr(k[2]), place(k[3]))
        elif t == "mode":
            k = (t, k[1], md(k[2]))
        r[k] = v
    return r


def same(ctx, got, want, what, extra=()):
    for k in set(got) | set(want):
        if k[0] == "stops":
            left = list(got[k])
            for x in want[k]:
                at = [i for i, y in enumerate(left) if is_close(y, x)]
                ctx.check(at, "%s: a constraint of a stop is missing" % what, got=got[k], want=want[k])
                left.pop(at[0])
            ctx.check(not left or extra, "%s: constraints of stops" % what, got=got[k], want=want[k])
            continue
        if k[0] in ("z", "v", "l"):
            a, b = got.get(k, 0.0), want.get(k, 0.0)
        else:
            if k not in want and k[0] in ("seats", "row", "table", "mode") and any(e in k for e in extra):
                continue
            ctx.check(k in got and k in want, "%s: %s is %s" % (what, k, "missing" if k not in got else "unexpected"))
            a, b = got[k], want[k]
        ctx.close(a, b, "%s: %s" % (what, k), rel=1e-6, abs_=1e-7)
    ctx.validated()


# ------------------------------------------------------------------ transformations
def redo(s, **k):
    return dict(s, **k)


def renumber(s, m, names=None):
    q = lambda l: [m[x] for x in l]
    return redo(s, nodes=[(m[n[0]], names[n[0]] if names else n[1]) + n[2:] for n in s["nodes"]],
                lines=[dict(ln, nodes={d: q(ln["nodes"][d]) for d in "IR"}, stops={d: q(ln["stops"][d]) for d in "IR"}) for ln in s["lines"]],
                trips=[(m[a], m[b], v) for a, b, v in s["trips"]])


def place_ids(s):
    ids = [n[0] for n in s["nodes"]]
    k = len(ids)
    for nm, new in (("consecutive", list(range(k))), ("backwards", list(range(k, 0, -1))), ("prefixes", [int("1" * (i + 1)) for i in range(k)]),
                    ("digits", (list((2, 12, 21, 122, 212, 221, 1, 22, 11)) + list(range(30, 60)))[:k]), ("large", [10 ** 6 + 997 * i for i in range(k)])):
        m = dict(zip(ids, new))
        nms = {i: {"consecutive": "n%d" % (k - j), "prefixes": "P_%d" % m[i], "digits": "place-%s" % "x" * (j + 1)}.get(nm, "CBD%d" % j)
               for j, i in enumerate(ids)}
        yield nm, renumber(s, m, nms), dict(place=lambda x, m=m: m[x])


def line_ids(s):
    ids = [ln["id"] for ln in s["lines"]]
    k = len(ids)
    for nm, new in (("numbers", [str(i) for i in range(k)]), ("prefixes", ["L" * (k - i) for i in range(k)]), ("directions", ["R", "I", "None", "bus", "metro"][:k]),
                    ("sorted backwards", ["line %s" % "zyxwv"[i] for i in range(k)]), ("known", ["CIR_R_metro", "CIR_I_bus", "F_bus_1", "EXP_1", "0"][:k]),
                    ("signs", ["(%s)" % ("ñ" * (i + 1)) for i in range(k)])):
        m = dict(zip(ids, new))
        yield nm, redo(s, lines=[dict(ln, id=m[ln["id"]]) for ln in s["lines"]]), dict(line=lambda x, m=m: m[x])


def mode_names(s):
    old = list(s["modes"])
    for nm, new in (("swapped", old[::-1] if len(old) > 1 else ["metro"]), ("prefixes", ["m", "mm"]), ("other", ["Tren (ñ)", "0"]), ("late", ["zug", "žlak z"]),
                    ("case", ["METRO", "Bus"]), ("numbers", ["-1", "10"])):
        m = dict(zip(old, new))
        yield nm, redo(s, modes={k: dict(v, name=m[k]) for k, v in s["modes"].items()}), dict(md=lambda x, m=m: m[x])


def line_order(s):
    for p in itertools.permutations(range(len(s["lines"]))):
        if list(p) != sorted(p):
            yield str(p), redo(s, lines=[s["lines"][i] for i in p]), {}


def trip_order(s):
    t = s["trips"]
    yield "backwards", redo(s, trips=t[::-1]), {}
    yield "rotated", redo(s, trips=t[1:] + t[:1]), {}
    yield "in two edits", redo(s, trips=[(a, b, v + 7) for a, b, v in t] + t[::-1]), {}


def place_order(s):
    n = s["nodes"]
    yield "places backwards", redo(s, nodes=n[::-1]), {}
    for i in range(1, len(n)):
        yield "places rotated %d" % i, redo(s, nodes=n[i:] + n[:i]), {}


def position(s):
    def mv(fn):
        return redo(s, nodes=[n[:2] + fn(n[2], n[3]) + n[4:] for n in s["nodes"]])
    for a in (90.0, 37.0, 180.0):
        c, q = math.cos(math.radians(a)), math.sin(math.radians(a))
        yield "turned %s" % a, mv(lambda x, y: (c * x - q * y, q * x + c * y)), {}
    yield "mirrored", mv(lambda x, y: (-x, y)), {}
    yield "shifted a little", mv(lambda x, y: (x + 0.75, y - 0.5)), {}


def zone_order(s):
    """zones numbered from another one, or the other way round: neighbours stay neighbours"""
    n = max(x[5] for x in s["nodes"])
    for nm, m in (("rotated", {z: z % n + 1 for z in range(1, n + 1)}), ("backwards", {z: n + 1 - z for z in range(1, n + 1)})):
        nodes = [x[:5] + (m.get(x[5], x[5]),) + x[6:] for x in s["nodes"]]
        nodes.sort(key=lambda x: x[5])
        yield "zones " + nm, redo(s, nodes=nodes), {}


def units(s):
    ps, ms = s["ps"], s["modes"]
    for k in (1.609344, 1000.0):        # other unit of length
        yield "length x%s" % k, redo(s, nodes=[n[:2] + (n[2] * k, n[3] * k) + n[4:6] + (n[6] * k,) for n in s["nodes"]], ps=dict(ps, va=ps["va"] * k),
                                     modes={a: dict(m, v=m["v"] * k, c2=m["c2"] / k) for a, m in ms.items()}), {}
    for k in (750.0, 0.01):             # other currency
        money = {("vrc",), ("overall", "VRC"), ("overall", "operators_cost"), ("overall", "infrastructure_cost"), ("overall", "users_cost")}
        yield "money x%s" % k, redo(s, ps=dict(ps, **{q: ps[q] * k for q in ("pv", "pw", "pa", "spv", "spw", "spa")}),
                                    modes={a: dict(m, co=m["co"] * k, c1=m["c1"] * k, c2=m["c2"] * k) for a, m in ms.items()}), \
            dict(value=lambda q, v, k=k: v * k if q in money or q[0] == "row" and q[2] == "co" else v)
    # valuations of travellers only matter relative to each other
    yield "valuations x3", redo(s, ps=dict(ps, **{q: ps[q] * 3 for q in ("pv", "pw", "pa")})), {}
    yield "initial frequency", redo(s, modes={a: dict(m, fini=m["fini"] / 3) for a, m in ms.items()}), {}


def turned_lines(s):
    """a line described from its other end"""
    every = (1 << len(s["lines"])) - 1
    for pick in sorted({x for x in (1, 2, every) if x <= every}):
        ids = {ln["id"] for i, ln in enumerate(s["lines"]) if pick >> i & 1}
        fl = lambda d: {"I": d["R"], "R": d["I"]}
        t = redo(s, lines=[dict(ln, nodes=fl(ln["nodes"]), stops=fl(ln["stops"])) if ln["id"] in ids else ln for ln in s["lines"]])
        yield "lines %s turned" % (pick if pick < 3 else "all"), t, dict(turned=ids)


def idle(s):
    """a line without service, of a mode in use or of another one"""
    other = "ghost"
    for ln in s["lines"][:2]:
        for at in (0, len(s["lines"])):
            for md in sorted(s["modes"]) + ([other] if len(s["modes"]) == 1 else []):
                new = dict(ln, id="idle", mode=md, f=0.0)
                ms = dict(s["modes"])
                if md == other:
                    ms[other] = dict(list(ms.values())[0], name=other, d=1, co=1.0, c2=5.0)
                t = redo(s, lines=s["lines"][:at] + [new] + s["lines"][at:], modes=ms)
                yield "idle %s at %d" % (md, at), t, dict(extra=("idle",) + ((other,) if md == other else ()))


GROUPS = {"place ids": place_ids, "line ids": line_ids, "mode names": mode_names, "line order": line_order, "trip order": trip_order, "place order": place_order,
          "position": position, "zone order": zone_order, "units": units, "turned lines": turned_lines, "idle line": idle}


def body(ctx):
    net = ctx.choose("network", list(NETWORKS))
    shape = ctx.choose("city", ["ids", "asym"] if ctx.thorough else ["ids"])
    mk = ctx.choose("modes", list(MODS) if ctx.thorough else ["plain", "sequential bus"])
    fh = "uneven" if mk == "plain" else ctx.choose("frequencies", ["uneven", "stopped"])
    dm = ctx.choose("demand", ["mixed", "all", "ring"])
    pn = "default" if mk == "plain" else "sprinter"
    s = data_of(net, shape, mk, fh, dm, pn)
    if not s["trips"]:
        ctx.prune()
    grp = ctx.choose("transformation", list(GROUPS) + ["written and read"])
    what = "%s %s %s %s" % (net, mk, dm, fh)
    base = results(s)
    ctx.step(what)
    ctx.state((what, shape, grp))
    if grp == "written and read":
        same(ctx, results(s, via=files), base, "written and read (%s)" % what)
        same(ctx, results(s), base, "computed again (%s)" % what)
        return
    for nm, t, how in GROUPS[grp](s):
        how = dict(how)
        extra = how.pop("extra", ())
        ids = how.pop("turned", None)
        got = results(t)
        ctx.step(nm)
        want = moved(base, **how)
        if ids is not None:
            want = {turn(k, ids): v for k, v in want.items()}
        same(ctx, got, want, "%s %s (%s)" % (grp, nm, what), extra)


def turn(k, ids):
    if k[0] in ("table", "z", "v", "l") and k[1] in ids:
        return (k[0], k[1], "R" if k[2] == "I" else "I") + k[3:]
    return k


def files(s):
    """the same system after its city and demand went through files"""
    g, net, d, ps, f = build(s)
    a, b = scratch("city.pajek"), scratch("demand.csv")
    g.graph_to_pajek_file(a)
    d.matrix_to_file(b)
    g2 = Graph.build_from_file(a)
    d2 = Demand.build_from_file(g2, b)
    os.unlink(a)
    os.unlink(b)
    net2 = TransportNetwork(g2)
    for r in net.get_routes():
        net2.add_route(r)
    return g2, net2, d2, ps, f


FEW = ["consecutive", "backwards", "large", "numbers", "prefixes", "swapped", "case", "rotated", "in two edits", "turned 37.0", "mirrored", "zones rotated",
       "length x1.609344", "money x750.0", "lines 2 turned", "lines all turned", "reversed", "by sevens", "halves"]


def some_orders(s):
    n = len(s["lines"])
    for nm, p in (("reversed", range(n)[::-1]), ("by sevens", sorted(range(n), key=lambda i: (i % 7, i))), ("halves", list(range(n // 2, n)) + list(range(n // 2)))):
        yield nm, redo(s, lines=[s["lines"][i] for i in p]), {}


def dozens(ctx):
    """the same for two to three dozen lines"""
    net = ctx.choose("network", ["one mode", "two modes", "one street"])
    w = crowd(net, "words", ctx.choose("city", ["ids", "asym"]) if ctx.thorough else "ids")
    f = w.freqs([2.0 + (7 * i) % 11 + 0.25 * i for i in range(len(w.lines))])
    theta = dict(theta=0.5) if net == "one street" else {}
    s = as_data(w, f, {"bus": theta}, {}, "all" if net == "one street" else "mixed")
    nm = ctx.choose("transformation", FEW if ctx.thorough or net == "one street" else FEW[net == "two modes"::2])
    ctx.state((net, nm))
    todo = []
    for fn in (place_ids, line_ids, mode_names, some_orders, trip_order, position, zone_order, units, turned_lines):
        if (fn is line_ids) != (nm in ("numbers", "prefixes")):
            continue
        if fn is line_ids:
            todo += [x for x in zip(("numbers", "prefixes"), [x[1:] for x in few_line_ids(s)]) if x[0] == nm]
            continue
        if fn is mode_names and nm not in ("swapped", "case") or fn is place_ids and nm not in FEW[:3] or fn not in (mode_names, place_ids) and nm in FEW[:3] + ["swapped", "case"]:
            continue
        todo += [(x[0], x[1:]) for x in fn(s) if x[0] == nm]
    if not todo:
        ctx.prune()
    base = results(s)
    for nm, (t, how) in todo:
        how = dict(how)
        extra, ids = how.pop("extra", ()), how.pop("turned", None)
        got = results(t)
        ctx.step(nm)
        want = moved(base, **how)
        if ids is not None:
            want = {turn(k, ids): v for k, v in want.items()}
        same(ctx, got, want, "%d lines (%s) %s" % (len(w.lines), net, nm), extra)


def few_line_ids(s):
    ids = [ln["id"] for ln in s["lines"]]
    k = len(ids)
    for nm, new in (("numbers", list(range(k))), ("prefixes", ["L" * (k - i) for i in range(k)])):
        m = dict(zip(ids, new))
        yield nm, redo(s, lines=[dict(ln, id=m[ln["id"]]) for ln in s["lines"]]), dict(line=lambda x, m=m: m[x])


HARNESSES = [("transformations", body), ("dozens of lines", dozens)]
BOUNDS = {"quick": "networks of 25-36 lines x 9-19 transformations; 18 networks x 2 mode parameter sets x 2-3 frequency patterns x 3 demands x 12 groups of transformations (every order of the lines, 5 numberings of places and "
                   "of lines, 6 namings of modes, every rotation of the list of places, 3 turns, mirror and shift, zone numbering, other units of length and money, lines described from "
                   "the other end, idle lines in both places, files)", "thorough": "4 mode parameter sets, two cities"}
ASSUMPTIONS = ["trips with two equally good ways to go on are left out: which one is taken is not determined"]
