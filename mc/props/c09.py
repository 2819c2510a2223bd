"""C09 histories of building a transport network"""
import csv
from common import *
from bfs import snapshot
from c08 import bus


class W:
    pass


# ids that contain each other
IDS = {"a": "L1", "b": "L12", "c": "1", "e": "L123", "m": "12", "f": "2"}


def metro(d=1, name="metro"):
    return TransportMode(name, 0, 80.91, 0.3, 933.15, 40, 0.33, 40, 1440, 0.5, 1, d, 28)


class History:
    def __init__(self, name, shape, small, bound):
        self.name, self.shape, self.small, self.bound = name, shape, small, bound

    def depth(self, tier):
        return self.bound + (1 if tier == "thorough" else 0)

    def ops(self, tier):
        adds = ["a", "b", "c", "m", "a-again", "broken", "broken-return", "third", "twin", "no-route"]
        if not self.small:
            adds += ["e", "f", "cir"]
        else:
            adds += ["size", "same"]
        rem = ["a", "b", "m", "ghost"] + ([] if self.small else ["c", "e"])
        modes = ["bus", "metro", "brt", "twin", "no-mode"] + (["size", "same"] if self.small else [])
        return ([("add", x) for x in adds] + [("remove", x) for x in rem] + [("add mode", x) for x in modes]
                + [("remove mode", x) for x in modes[:4]] + [("save",)])

    def fresh(self, tier):
        w = W()
        w.g = city(2, shape=self.shape)
        ids = [int(o.id) for o in w.g.get_nodes()]
        c, p1, s1, p2, s2 = ids
        w.modes = {"bus": bus(), "metro": metro(), "brt": bus(d=2, name="brt"), "twin": bus(d=1, name="bus"), "no-mode": "bus",
                   "size": bus(), "same": bus()}        # a mode of the same name with other vehicles, and a copy
        w.modes["size"].kmax = 7.0
        M = w.modes

        def r(i, mode, *seq, rev=None, stops=None, rstops=None):
            f, b, sf, sb = (",".join(map(str, q)) for q in (seq, rev or seq[::-1], stops or seq, rstops or rev or seq[::-1]))
            return Route(IDS.get(i, i), M[mode], f, b, sf, sb)
        w.routes = {
            "a": r("a", "bus", p1, s1, c, stops=(p1, c)), "b": r("b", "bus", p2, s2, c, rstops=(c, p2)),
            "c": r("c", "bus", s1, s2, rev=(s2, c, s1), rstops=(s2, s1)),
            "e": r("e", "bus", p1, s1, s2, p2), "f": r("f", "metro", s2, c),
            "m": r("m", "metro", s1, c, s2), "a-again": r("a", "metro", s1, s2),
            "broken": r("broken", "metro", p1, c), "broken-return": r("br", "metro", s1, c, s2, rev=(s2, p1, s1)),
            "third": r("third", "brt", s1, c), "twin": r("twin", "twin", s1, c), "no-route": "a",
            "size": r("size", "size", s1, c), "same": r("same", "same", s1, c),
        }
        w.routes["cir"] = TransportNetwork(w.g).get_circular_routes(M["metro"])[1]
        w.net = TransportNetwork(w.g)
        w.bystander = TransportNetwork(w.g)
        w.ref_routes, w.ref_modes = [], []
        return w

    def ref_mode_ok(self, w, m):
        mode = w.modes[m]
        if not isinstance(mode, TransportMode):
            return False
        if m in w.ref_modes:
            return True
        new = w.ref_modes + [m]
        if len(new) > 2 or len({w.modes[x].name for x in new}) != len(new):
            return False
        return len(new) == 1 or any(w.modes[x].d == 1 for x in new)

    def apply(self, ctx, w, op):
        what = op[0]
        if what == "add":
            r = w.routes[op[1]]
            mode = next((k for k, m in w.modes.items() if m is getattr(r, "mode", None)), None)
            ok = (op[1] not in ("broken", "broken-return", "no-route") and r.id not in [x.id for x in w.ref_routes]
                  and self.ref_mode_ok(w, mode))
            if ok:
                w.net.add_route(r)
                w.ref_routes.append(r)
                if mode not in w.ref_modes:
                    w.ref_modes.append(mode)
            else:
                ctx.rejects(lambda: w.net.add_route(r), "an invalid line was added: %r" % (op,), REJECT)
        elif what == "remove":
            rid = IDS.get(op[1], op[1])
            if rid in [x.id for x in w.ref_routes]:
                w.net.remove_route(rid)
                w.ref_routes = [x for x in w.ref_routes if x.id != rid]
            else:
                ctx.rejects(lambda: w.net.remove_route(rid), "a line that does not exist was removed", REJECT)
        elif what == "add mode":
            if self.ref_mode_ok(w, op[1]):
                w.net.add_transport_mode(w.modes[op[1]])
                if op[1] not in w.ref_modes:
                    w.ref_modes.append(op[1])
            else:
                ctx.rejects(lambda: w.net.add_transport_mode(w.modes[op[1]]), "an invalid mode was added: %r" % (op,), REJECT)
        elif what == "remove mode":
            w.net.remove_transport_mode(w.modes[op[1]])
            w.ref_modes = [m for m in w.ref_modes if m != op[1]]
            w.ref_routes = [x for x in w.ref_routes if x.mode is not w.modes[op[1]]]
        elif what == "save":
            p = stale(scratch("net.csv"))
            w.net.routes_to_file(p)
            with open(p, encoding="utf-8") as f:
                rows = [ln.split(";") for ln in f.read().strip().split("\n")[1:]]
            os.unlink(p)

            def js(q):
                return ",".join(map(str, q))
            ctx.equal(rows, [[x.id, x.mode.name, js(x.nodes_sequence_i), js(x.nodes_sequence_r), js(x.stops_sequence_i),
                              js(x.stops_sequence_r)] for x in w.ref_routes], "saved lines")
        got = w.net.get_routes()
        ctx.check(len(got) == len(w.ref_routes) and all(x is y for x, y in zip(got, w.ref_routes)),
                  "lines of the network after %r" % (op,), got=[x.id for x in got], want=[x.id for x in w.ref_routes])
        ms = w.net.get_modes()
        ctx.check(len(ms) == len(w.ref_modes) and all(x is w.modes[y] for x, y in zip(ms, w.ref_modes)),
                  "modes of the network after %r" % (op,), got=[m.name for m in ms], want=w.ref_modes)
        for k in ("a", "b", "c", "m", "e", "f", "broken", "br", "third", "twin", "size", "same", "L", "123"):
            k = IDS.get(k, k)
            want = [x for x in w.ref_routes if x.id == k]
            if want:
                ctx.check(w.net.get_route(k) is want[0], "looking up line %s" % k)
            else:
                ctx.rejects(lambda: w.net.get_route(k), "a line that does not exist was found: %s" % k, REJECT)
        ctx.check(not w.bystander.get_routes() and not w.bystander.get_modes(), "another network was changed")
        ctx.validated()

    def key(self, w):
        return snapshot([w.net, [x.id for x in w.ref_routes], w.ref_modes])


def js(q):
    return ",".join(map(str, q))


def dozens(ctx):
    """networks of many lines of two modes: two removals of any lines, a removed mode, lines added again, the saved list"""
    k = ctx.choose("lines", [11, 26])
    kind = ctx.choose("ids", ["words", "numbers", "nested"])
    share = ctx.choose("modes", ["one", "alternating", "halves", "mostly metro"])
    g = city(4, shape="ids" if kind == "words" else "sym")
    ms = [bus(), metro()]
    zs = [(int(z.periphery.id), int(z.subcenter.id)) for z in g.get_zones()]
    c = int(g.get_cbd().id)
    name = {"words": lambda i: "line %d" % i, "numbers": lambda i: i, "nested": lambda i: "1" * (i + 1)}[kind]
    m = {"one": lambda i: 0, "alternating": lambda i: i % 2, "halves": lambda i: 2 * i < k, "mostly metro": lambda i: i % 9 != 4}[share]
    net = TransportNetwork(g)
    ref = []

    def put(i):
        p, q = zs[i % 4]
        seq = [(p, q), (p, q, c), (q, c)][i % 3]
        r = Route(name(i), ms[int(m(i))], js(seq), js(seq[::-1]), js(seq), js(seq[::-1]))
        net.add_route(r)
        ref.append(r)

    def same(what):
        ctx.step(what)
        got = net.get_routes()
        ctx.check(len(got) == len(ref) and all(x is y for x, y in zip(got, ref)), "lines of the network (%s)" % what, got=[r.id for r in got],
                  want=[r.id for r in ref])
        for i in range(k + 2):
            want = [r for r in ref if r.id == name(i)]
            if want:
                ctx.check(net.get_route(name(i)) is want[0], "looking up line %s (%s)" % (i, what))
            else:
                ctx.rejects(lambda: net.get_route(name(i)), "a line that does not exist was found (%s)" % what, REJECT)
                ctx.rejects(lambda: net.remove_route(name(i)), "a line that does not exist was removed (%s)" % what, REJECT)
        p = stale(scratch("net.csv"))
        net.routes_to_file(p)
        with open(p, encoding="utf-8") as f:
            rows = [ln.split(";") for ln in f.read().strip().split("\n")[1:]]
        os.unlink(p)
        ctx.equal(rows, [[str(x.id), x.mode.name, js(x.nodes_sequence_i), js(x.nodes_sequence_r), js(x.stops_sequence_i),
                          js(x.stops_sequence_r)] for x in ref], "saved lines (%s)" % what)
        ctx.validated()
    for i in range(k):
        put(i)
    same("filled")
    what = ctx.choose("then", ["lines", "mode"])
    if what == "mode":
        gone = ctx.choose("gone", [0, 1])
        net.remove_transport_mode(ms[gone])
        ref[:] = [r for r in ref if r.mode is not ms[gone]]
        same("a mode is gone")
        left = [x for x in ms if any(m(i) == ms.index(x) for i in range(k)) and x is not ms[gone]]
        ctx.check(len(net.get_modes()) == len(left) and all(x is y for x, y in zip(net.get_modes(), left)), "modes that are left")
        for i in (0, 1, k - 1):
            if name(i) not in [r.id for r in ref]:
                put(i)
        same("lines came back")
    else:
        for turn in range(2):
            i = ctx.choose("line %d" % turn, list(range(k)) if ctx.thorough or turn == 0 else [0, 3, k // 2, k - 2, k - 1])
            if name(i) not in [r.id for r in ref]:
                ctx.prune()
            net.remove_route(name(i))
            ref[:] = [r for r in ref if r.id != name(i)]
            same("without %d lines" % (turn + 1))
        put(i)
        same("the line came back")
        put(k)
        same("a line more")
    ctx.state((k, kind, share, [r.id for r in ref]))


ODD = ["A;B", 'say "x"', "two words", "ñandú", "a,b", "line\nbreak", "'q'", "\\", " lead", 17, "#", "\t"]


def odd(ctx):
    """lines and modes with unusual names: looked up, removed, saved and read with the means of the format"""
    a = ctx.choose("first id", ODD)
    b = ctx.choose("second id", ODD)
    name = ctx.choose("mode", ["bus", "a;b", 'the "fast" one', "ómnibus"])
    if a == b:
        ctx.prune()
    g = city(2, shape="ids")
    c, p1, s1, p2, s2 = [int(o.id) for o in g.get_nodes()]
    m = bus(name=name)
    net = TransportNetwork(g)
    rs = [Route(a, m, js(q), js(q[::-1]), js(t), js(t[::-1])) for q, t in [((p1, s1, c), (p1, c))]]
    rs += [Route(b, m, js((s2, c)), js((c, s2)), js((s2, c)), js((c, s2)))]
    for r in rs:
        net.add_route(r)
    for turn in range(2):
        p = stale(scratch("net.csv"))
        net.routes_to_file(p)
        with open(p, encoding="utf-8", newline="") as fh:
            rows = list(csv.reader(fh, delimiter=";"))[1:]
        os.unlink(p)
        ctx.equal(rows, [[str(x.id), x.mode.name, js(x.nodes_sequence_i), js(x.nodes_sequence_r), js(x.stops_sequence_i), js(x.stops_sequence_r)]
                         for x in rs], "saved lines")
        for r in rs:
            ctx.check(net.get_route(r.id) is r, "looking up line %r" % (r.id,))
        ctx.check(len(net.get_routes()) == len(rs) and all(x is y for x, y in zip(net.get_routes(), rs)), "lines of the network")
        if turn == 0:
            net.remove_route(a)
            rs = rs[1:]
            ctx.rejects(lambda: net.get_route(a), "a removed line was found", REJECT)
        ctx.step((a, b, turn))
    ctx.state((str(a), str(b), name))
    ctx.validated()


HARNESSES = [("odd names", odd), ("dozens of lines", dozens)]
MODELS = [History("network", "sym", False, 6), History("network-ids", "ids", True, 5)]
BOUNDS = {"quick": "two lines with any two of 12 unusual ids under 4 mode names, saved and read with the csv format; networks of 11 and 26 lines of two modes with any two lines or a mode removed and lines put back; every history of <=6 operations over 29 (add/remove line, add/remove mode, save) on a two zone city, "
                   "<=5 on an imported city; states merged when structurally identical", "thorough": "one operation more"}
