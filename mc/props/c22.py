"""C22 reported results: per line and overall"""
import re
from evalref import *
from bfs import observe
from c12 import NAMES
from c16 import FH
from c17 import MODS
from sidermit.optimization.optimizer import Optimizer
from sidermit.exceptions import NoOptimalSolutionFoundException


def judge_lines(ctx, w, ev, rows, what):
    ctx.equal([r[0] for r in rows], [r.id for r in w.net.get_routes()], "lines reported (%s)" % what)
    for row in rows:
        ln = w.line[row[0]]
        m, F = ln.mode, ev.f[ln.id]
        k, tc = ev.k[ln.id], ev.tc[ln.id]
        b = ev.boardings(ln)
        on = {d: ev.loads(ln, d) for d in "IR"}
        if F == 0:
            want = [0.0] * 7
            tables = {d: [(i, j, 0.0) for i, j, _ in on[d]] for d in "IR"}
        else:
            tables = {d: [(i, j, x / k if k else 0.0) for i, j, x in on[d]] for d in "IR"}
            ratio = min([x for d in "IR" for _, _, x in tables[d]])
            want = [F, F / m.d, k, F * tc, tc * 60.0, (m.co + m.c1 * k) * tc / b if b else 0.0, ratio]
        names = ["frequency", "frequency per line", "vehicle size", "fleet", "cycle time", "cost per traveller", "least load"]
        for nm, a, x in zip(names, row[1:8], want):
            ctx.close(a, x, "%s reported for %s (%s)" % (nm, ln.id, what))
        for d, tab in zip("IR", row[8:10]):
            ctx.equal([(int(t[0]), int(t[1])) for t in tab], [t[:2] for t in tables[d]], "sections reported for %s %s (%s)" % (ln.id, d, what))
            for t, x in zip(tab, tables[d]):
                ctx.close(t[2], x[2], "load reported on %s-%s of %s %s (%s)" % (x[0], x[1], ln.id, d, what))
    ctx.validated()


def judge_overall(ctx, w, ev, out, total, what):
    want = {"VRC": ev.VRC, "operators_cost": ev.CO, "infrastructure_cost": ev.CI, "users_cost": ev.CU, "travel_time_on_board": ev.tv * 60,
            "waiting_time": ev.te * 60, "access_time": ev.ta * 60, "transfers": ev.tr}
    for k, x in want.items():
        ctx.close(out[k], x / total, "%s per traveller (%s)" % (k, what))
    B, K, L = defaultdict(float), defaultdict(list), defaultdict(int)
    for ln in w.lines:
        if ev.f[ln.id] > 0:
            B[ln.mode.name] += ev.f[ln.id] * ev.tc[ln.id]
            K[ln.mode.name].append(ev.k[ln.id])
            L[ln.mode.name] += ln.mode.d
    for k, ref in (("vehicles_mode", B), ("vehicle_capacity_mode", {m: sum(x) / len(x) for m, x in K.items()}), ("lines_mode", L)):
        got = {m.name: out[k][m] for m in list(out[k]) if out[k][m] or m.name in ref}
        ctx.equal(sorted(got), sorted(ref), "modes in %s (%s)" % (k, what))
        for m in ref:
            ctx.close(got[m], ref[m], "%s of %s (%s)" % (k, m, what))
    ctx.validated()


def alike(a, b):
    """equal, numbers up to the rounding of the arithmetic"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return is_close(a, b, 1e-9, 1e-9)


def judge_table(ctx, txt, rows, what):
    lines = txt.split("\n")
    ctx.equal(len(lines), 1 + len(rows), "lines of the %s" % what)
    for t, row in zip(lines[1:], rows):
        c = t.split(";")
        ctx.equal(len(c), 10, "columns of the %s" % what)
        ctx.equal(c[0], str(row[0]), "line of the %s" % what)
        for a, b in zip(c[1:8], row[1:8]):
            ctx.check(re.fullmatch(r"-?\d+\.\d\d", a) and abs(float(a) - b) <= 0.00501, "figure of the %s" % what, text=t, row=row)
        for a, b in zip(c[8:], row[8:]):
            ctx.check(alike(eval(a, {"np": __import__("numpy")}), b), "sections of the %s" % what, text=a, want=b)
    return lines[0]


def judge_text(ctx, opt, rows, out):
    head = judge_table(ctx, opt.string_network_results(), rows, "report")
    path = stale(scratch("results.csv"))
    for what in ("report file", "report file written twice"):
        opt.write_file_network_results(path)
        with open(path, encoding="utf-8", newline="") as fh:
            ctx.equal(judge_table(ctx, fh.read(), rows, what), head, "heading of the " + what)
    os.unlink(path)
    s = opt.string_overall_results()
    for label, v in (("Objective function VRC", out["VRC"]), ("Operators cost", out["operators_cost"]), ("Infrastructure cost", out["infrastructure_cost"]),
                     ("Users cost", out["users_cost"]), ("Time on board vehicle", out["travel_time_on_board"]), ("Waiting time", out["waiting_time"]),
                     ("Access time", out["access_time"]), ("Transfers", out["transfers"]),
                     ("total travel time", out["travel_time_on_board"] + out["waiting_time"] + out["access_time"])):
        m = re.search(re.escape(label) + r"\s*\[[^\]]*\]\s*:\s*(-?[\d.]+)", s)
        ctx.check(m and abs(float(m.group(1)) - v) <= 0.00501, "%s of the summary" % label, text=s, value=v)
    for m in out["lines_mode"]:
        part = s.split("Mode name: %s\n" % m.name)
        ctx.equal(len(part), 2, "mode %s in the summary" % m.name)
        for label, v in (("B", out["vehicles_mode"][m]), ("K", out["vehicle_capacity_mode"][m]), ("L", out["lines_mode"][m])):
            q = re.search(r"\b%s \[\w+(?:/\w+)?\]\s*:\s*(-?[\d.]+)" % label, part[1])
            ctx.check(q and abs(float(q.group(1)) - v) <= 0.00501, "%s of %s in the summary" % (label, m.name), text=s)
    ctx.validated()


DAILY = [0.2, 30.0, 0.05, 0.45, 1.0 / 20]


def start(w, trips, ps, f0):
    return Optimizer(w.g, demand(w, trips), ps, w.net, f0)


def better(x):
    return (x, True, 1, "done", 0.0, 123.0)


def body(ctx):
    net = ctx.choose("network", list(NETWORKS))
    mk = ctx.choose("modes", list(MODS) if ctx.thorough else ["plain", "sequential bus"])
    w = network(net, "ids", **MODS[mk])
    fh = ctx.choose("frequencies", list(FH) + ["daily"])
    f = w.freqs(dict(FH, daily=DAILY)[fh])
    ps = passenger(**PSETS[ctx.choose("passenger", list(PSETS) if ctx.thorough else ["default" if mk == "plain" else "sprinter"])])
    dm = ctx.choose("demand", list(DEMANDS))
    trips = trips_of(w, dm, f, ps)
    if not trips or any(k not in trips_of(w, dm, None, ps) for k in trips):
        ctx.prune()
    what = "%s %s %s %s" % (net, mk, dm, fh)
    opt = start(w, trips, ps, ctx.choose("started from", [None, f]))
    opt.better_res = better(vector(w, f))
    before = observe([w.g, w.net, ps, sorted(f.items())])
    rows = opt.get_network_results()
    out = opt.get_overall_results()
    ctx.step(what)
    ctx.state((what, repr(observe(ps))))
    ev = Eval(w, Run(w, f, ps, trips), f)
    judge_lines(ctx, w, ev, rows, what)
    judge_overall(ctx, w, ev, out, sum(trips.values()), what)
    judge_text(ctx, opt, rows, out)
    ctx.equal(opt.better_res, better(vector(w, f)), "reporting changed the result")
    ctx.check(observe([w.g, w.net, ps, sorted(f.items())]) == before, "reporting changed its inputs")
    ctx.check(alike(opt.get_network_results(), rows), "the same report asked twice")
    ctx.outcome = "idle lines" if any(f[ln.id] and not ev.k[ln.id] for ln in w.lines) else "all lines used"


def rings(ctx):
    """circular lines of 2..6 zones, each sense alone, both, and with an ordinary line; every pair of places as the only demand"""
    n = ctx.choose("zones", [2, 3, 4, 6])
    lines = ctx.choose("lines", [["cir-I"], ["cir-R"], ["cir-I", "cir-R"], ["cir-R", "ring12"], ["dia", "cir-R"]])
    md = bus_(tat=0.3, bya=ctx.choose("simultaneous", [0, 1]), t=9.0)
    w = World(city(n, shape=ctx.choose("city", ["ids", "asym"])), [(x, md) for x in lines])
    subs = [x for x in w.sym if x[0] == "S"]
    a = ctx.choose("from", subs)
    b = ctx.choose("to", [x for x in subs if x != a])
    back = ctx.choose("and", [None, (b, a)] + [(b, x) for x in subs if x not in (a, b)][:1])
    trips = {(a, b): 70.0}
    if back:
        trips[back] = 25.0
    f = w.freqs([12.0, 7.0])
    ps = passenger()
    what = "%d zones %s %s" % (n, lines, sorted(trips))
    opt = start(w, trips, ps, f)
    opt.better_res = better(vector(w, f))
    rows = opt.get_network_results()
    out = opt.get_overall_results()
    ctx.step(what)
    ctx.state((what, md.bya))
    ev = Eval(w, Run(w, f, ps, trips), f)
    judge_lines(ctx, w, ev, rows, what)
    judge_overall(ctx, w, ev, out, sum(trips.values()), what)


def naming(ctx):
    """lines of any name"""
    a, b = ctx.choose("id 1", NAMES), ctx.choose("id 2", NAMES)
    if a == b or "CIR_I_bus" == b:
        ctx.prune()
    how = ctx.choose("lines", [("radial1", "loop-back"), ("dia", "express1"), ("cir-I", "dia")])
    md = bus_(tat=0.3)
    w = World(city(3, shape="ids"), [(x, md) for x in how], [a, b])
    f = w.freqs([12.0, 7.0])
    ps = passenger()
    trips = trips_of(w, "mixed", f, ps)
    opt = start(w, trips, ps, f)
    opt.better_res = better(vector(w, f))
    what = "lines %s and %s" % (a, b)
    rows, out = opt.get_network_results(), opt.get_overall_results()
    ctx.step(what)
    ctx.state((a, b, how))
    ev = Eval(w, Run(w, f, ps, trips), f)
    judge_lines(ctx, w, ev, rows, what)
    judge_overall(ctx, w, ev, out, sum(trips.values()), what)
    judge_text(ctx, opt, rows, out)


def nothing(ctx):
    """no result, no report"""
    w = network(ctx.choose("network", ["radial", "ring"]))
    trips = {("P1", "S1"): 10.0}
    opt = start(w, trips, passenger(), ctx.choose("started from", [None, w.freqs([9.0] * 5)]))
    for ask in ctx.choose("order", [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0)]):
        fn = [opt.get_network_results, opt.get_overall_results, opt.string_network_results, opt.string_overall_results,
              lambda: opt.write_file_network_results(scratch("none.csv"))][ask]
        try:
            fn()
        except NoOptimalSolutionFoundException:
            ctx.step(ask)
        else:
            ctx.check(False, "a report without a result", which=ask)
        ctx.check(opt.get_optimization_value() is None, "a result appeared")
        ctx.check(not os.path.exists(scratch("none.csv")), "a report file without a result")
    ctx.state((net_key(w), sorted(trips)))
    ctx.validated()


def reported(ctx, w, f, what):
    ps = passenger()
    dm = "far" if len(w.sym) > 12 else "mixed"
    can = trips_of(w, dm, None, ps)
    trips = {k: 4 * v for k, v in trips_of(w, dm, f, ps).items() if k in can}
    if not trips:
        return
    opt = start(w, trips, ps, f)
    opt.better_res = better(vector(w, f))
    rows, out = opt.get_network_results(), opt.get_overall_results()
    ev = Eval(w, Run(w, f, ps, trips), f)
    judge_lines(ctx, w, ev, rows, what)
    judge_overall(ctx, w, ev, out, sum(trips.values()), what)
    judge_text(ctx, opt, rows, out)


changes = changing(reported, [("d", 2), ("co", 3.0), ("t", 20.0)], ["radial", "one ring"])


def net_key(w):
    return sorted(ln.id for ln in w.lines)


HARNESSES = [("reports", body), ("rings", rings), ("naming", naming), ("nothing to report", nothing), ("changes", changes), ("large city", large(reported)), ("sizes", sizes(reported)), ("dozens of lines", many(reported)), ("twins", twins(reported))]
BOUNDS = {"quick": "18 networks x 2 mode parameter sets x 3 frequency patterns (idle and stopped lines included) x 7 demands x 2 starting points; reports, "
                   "text and files; circular lines of 2..6 zones x 5 line sets x every pair of demands; 4 networks with every combination of very small, ordinary and very large radius, width, speed and frequencies; large cities of nine zones with long lines (up to 19 stops); networks of 25-36 lines with words and numbers as ids; 3 networks x 24 ways in which two systems with the same names differ in one thing, asked in turn; all 2-step histories of changes of 2 networks", "thorough": "4 mode parameter sets, 4 passenger profiles"}
ASSUMPTIONS = ["the load of a section is given relative to the most loaded section of the line; a running line that carries nobody reports loads and cost per "
               "boarding of zero", "reports are judged for a given result of the optimisation (C21 judges which result is taken)"]
