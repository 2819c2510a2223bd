"""C11 modes and passengers only ever hold valid values; mode catalogue histories"""
from common import *
from bfs import snapshot

MODE_F = ["name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini"]
MODE_V = {"name": "bus", "bya": 1, "co": 8.5, "c1": 0.25, "c2": 0.5, "v": 20, "t": 2.5, "fmax": 150, "kmax": 160,
          "theta": 0.75, "tat": 0.5, "d": 2, "fini": 28}
PAX_F = ["va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"]
PAX_V = dict(zip(PAX_F, [4.0, 2.75, 5.5, 8.25, 16, 2.5, 5.25, 8.125, 12]))


def ok_mode(f, v):
    if v is None:
        return False
    if f == "name":
        return True
    if f == "bya":
        return v in (0, 1)
    if f == "theta":
        return 0 <= v <= 1
    if f == "v":
        return v > 0
    return v >= 0


def ok_pax(f, v):
    return v is not None and (v > 0 if f == "va" else v >= 0)


VALUES = [0, 1, 0.001, -1e-12, 1.000000000001, 7, None, -1, 1e9]


def expected(vals):
    e = dict(vals)
    e["fmax"] = vals["fmax"] * vals["d"]
    e["fini"] = vals["fini"] * vals["d"]
    return e


def constructor(ctx):
    """up to two deviating fields at construction"""
    what = ctx.choose("object", ["mode", "passenger"])
    fs, base, ok = (MODE_F, MODE_V, ok_mode) if what == "mode" else (PAX_F, PAX_V, ok_pax)
    vals = dict(base)
    k = ctx.choose("deviations", [0, 1, 2])
    if k:
        f1 = ctx.choose("field", fs)
        vals[f1] = ctx.choose("value", VALUES)
    if k == 2:
        rest = [f for f in fs if fs.index(f) > fs.index(f1)]
        f2 = ctx.choose("field2", rest)
        vals[f2] = ctx.choose("value2", VALUES)
    if what == "mode" and vals["d"] == 0 and any((vals[f] or 0) < 0 for f in ("fmax", "fini")):
        ctx.prune()       # held per mode as value * d = 0, a valid value: either answer is fine
    good = all(ok(f, v) for f, v in vals.items())
    cls = TransportMode if what == "mode" else Passenger
    ctx.state((what, sorted(vals.items(), key=str)))
    ctx.step((what, vals))
    if good:
        o = cls(*[vals[f] for f in fs])
        want = expected(vals) if what == "mode" else vals
        ctx.equal({f: getattr(o, f) for f in fs}, want, "values of a %s" % what)
    else:
        ctx.rejects(lambda: cls(*[vals[f] for f in fs]), "an invalid %s was created: %r" % (what, vals))
    ctx.validated()
    ctx.outcome = "accepted" if good else "rejected"


class Setters:
    """histories of assignments: a refused assignment leaves the object untouched, objects are independent"""

    def __init__(self, name, what):
        self.name, self.what = name, what
        self.fs, self.base, self.ok = (MODE_F, MODE_V, ok_mode) if what == "mode" else (PAX_F, PAX_V, ok_pax)

    def depth(self, tier):
        return 3 if tier == "thorough" else 2

    def ops(self, tier):
        return [(who, f, v) for who in (0, 1) for f in self.fs for v in ([0, 1, 0.5, -1e-12, 1.000000000001, None, 2] if self.what == "mode"
                                                                         else [0, 3.5, -1e-12, None])]

    def fresh(self, tier):
        cls = TransportMode if self.what == "mode" else Passenger
        w = [cls(*[self.base[f] for f in self.fs]) for _ in range(2)]
        want = expected(self.base) if self.what == "mode" else dict(self.base)
        return {"objs": w, "ref": [dict(want), dict(want)]}

    def apply(self, ctx, w, op):
        who, f, v = op
        if self.ok(f, v):
            setattr(w["objs"][who], f, v)
            w["ref"][who][f] = v
        else:
            ctx.rejects(lambda: setattr(w["objs"][who], f, v), "an invalid value was assigned: %s=%r" % (f, v), REJECT)
        for o, r in zip(w["objs"], w["ref"]):
            ctx.equal({k: getattr(o, k) for k in self.fs}, r, "values after %r" % (op,))

    def key(self, w):
        return snapshot([w["objs"], [sorted(r.items(), key=str) for r in w["ref"]]])


class Catalogue:
    name = "catalogue"

    def depth(self, tier):
        return 7 if tier == "thorough" else 6

    def ops(self, tier):
        names = ["bus", "metro", "brt", "lrt"]
        return ([("add", n, d) for n in names for d in (1, 2)] + [("add", None, None)]
                + [("remove", n) for n in names + ["ghost"]] + [("restart", b) for b in (True, False)])

    def fresh(self, tier):
        w = {"mgr": TransportModeManager(), "other": TransportModeManager(False)}
        w["ref"] = [["bus", m.d, m] for m in w["mgr"].get_modes()]
        for r, m in zip(w["ref"], w["mgr"].get_modes()):
            r[0] = m.name
        w["objs"] = {(n, d): TransportMode(n, 1, 1, 1, 1, 10, 1, 10, 10, 0.5, 0, d, 5)
                     for n in ("bus", "metro", "brt", "lrt") for d in (1, 2)}
        return w

    def apply(self, ctx, w, op):
        names = [r[0] for r in w["ref"]]
        if op[0] == "add":
            m = w["objs"].get(op[1:], "not a mode")
            if op[1] is None or op[1] in names:
                ctx.rejects(lambda: w["mgr"].add_mode(m), "an invalid mode was added: %r" % (op,), REJECT)
            else:
                w["mgr"].add_mode(m)
                w["ref"].append([op[1], op[2], m])
        elif op[0] == "remove":
            if op[1] in names:
                w["mgr"].remove_mode(op[1])
                w["ref"] = [r for r in w["ref"] if r[0] != op[1]]
            else:
                ctx.rejects(lambda: w["mgr"].remove_mode(op[1]), "a missing mode was removed", REJECT)
        else:
            w["mgr"] = TransportModeManager(op[1])
            ms = w["mgr"].get_modes()
            if op[1]:
                ctx.equal([m.name for m in ms], ["bus", "metro"], "default catalogue")
                w["ref"] = [[m.name, m.d, m] for m in ms]
            else:
                w["ref"] = []
        ms = w["mgr"].get_modes()
        ctx.check(len(ms) == len(w["ref"]) and all(a is r[2] for a, r in zip(ms, w["ref"])), "modes after %r" % (op,))
        ctx.equal(list(w["mgr"].get_modes_names()), [r[0] for r in w["ref"]], "mode names after %r" % (op,))
        for n in ("bus", "metro", "brt", "lrt", "ghost"):
            hit = [r for r in w["ref"] if r[0] == n]
            if hit:
                ctx.check(w["mgr"].get_mode(n) is hit[0][2], "looking up mode %s" % n)
            else:
                ctx.rejects(lambda: w["mgr"].get_mode(n), "a missing mode was found", REJECT)
        ok = len(w["ref"]) == 1 or (len(w["ref"]) == 2 and any(r[1] == 1 for r in w["ref"]))
        if ok:
            ctx.check(w["mgr"].is_valid_to_assignment_step() is True, "a valid pair of modes is not valid",
                      modes=[r[:2] for r in w["ref"]])
        else:
            ctx.rejects(lambda: w["mgr"].is_valid_to_assignment_step(), "an invalid set of modes is valid", REJECT)
        ctx.check(not w["other"].get_modes(), "another catalogue was changed")

    def key(self, w):
        return snapshot([w["mgr"], [r[:2] for r in w["ref"]]])


def defaults(ctx):
    """the documented default modes and passenger, whatever was created before"""
    k = ctx.choose("first", ["nothing", "changed default mode", "changed default passenger", "changed catalogue", "emptied catalogue"])
    old = []
    if k == "changed catalogue":
        mgr = TransportModeManager()
        mgr.get_mode("bus").v = 99
        mgr.get_mode("metro").fmax = 1
        mgr.add_mode(TransportMode("tram", 1, 1, 1, 1, 10, 1, 10, 10, 0.5, 0, 1, 5))
        old = mgr.get_modes()[:]
    if k == "emptied catalogue":
        mgr = TransportModeManager()
        old = mgr.get_modes()[:]
        mgr.remove_mode("metro")
        mgr.remove_mode("bus")
    if k == "changed default mode":
        TransportMode.get_default_modes()[0].co = 99
        TransportModeManager().get_modes()[1].v = 1
    if k == "changed default passenger":
        Passenger.get_default_passenger().va = 1
    b, m = TransportMode.get_default_modes()
    ctx.equal([getattr(b, f) for f in MODE_F], ["bus", 1, 8.61, 0.15, 0, 20, 2.5, 600, 160, 0.7, 0, 4, 112], "default bus")
    ctx.equal([getattr(m, f) for f in MODE_F], ["metro", 0, 80.91, 0.3, 933.15, 40, 0.33, 40, 1440, 0.5, 1, 1, 28],
              "default metro")
    for mgr in (TransportModeManager(), TransportModeManager(True)):
        ctx.equal([[getattr(x, f) for f in MODE_F] for x in mgr.get_modes()], [[getattr(x, f) for f in MODE_F] for x in (b, m)], "modes of a new catalogue")
        ctx.check(not any(x is y for x in mgr.get_modes() for y in old + [b, m]), "a new catalogue shares modes with another one")
        old += mgr.get_modes()
    ctx.check(Passenger.get_default_passenger() is not Passenger.get_default_passenger(), "default passengers are one object")
    p = Passenger.get_default_passenger()
    ctx.equal([getattr(p, f) for f in PAX_F], [4.0, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16], "default passenger")
    ctx.state(k)
    ctx.step()
    ctx.validated()


HARNESSES = [("constructor", constructor), ("defaults", defaults)]
MODELS = [Setters("mode setters", "mode"), Setters("passenger setters", "passenger"), Catalogue()]
BOUNDS = {"quick": "every one- and two-field deviation over 9 values; setter histories of length 2 over two objects; "
                   "catalogue histories of length 6", "thorough": "setter histories of length 3, catalogue of length 7"}
