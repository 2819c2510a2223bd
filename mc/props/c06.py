"""C06 histories of edits of a demand matrix"""
from common import *
from bfs import snapshot
from engine import Prune


class World:
    pass


class Edits:
    """every history of edits up to a depth, on real matrices over two kinds of cities"""

    def __init__(self, name, mk, valid, invalid, bound):
        self.name, self.mk, self.valid, self.invalid, self.bound = name, mk, valid, invalid, bound

    def depth(self, tier):
        return self.bound + (1 if tier == "thorough" else 0)

    def ops(self, tier):
        vals = [5, 2.5, 0, -1, -1e-12]
        ids = self.valid + self.invalid
        return [("set", i, j, v) for v in vals for i in ids for j in ids] + [("other",), ("save",)]

    def fresh(self, tier):
        w = World()
        w.g = self.mk()
        w.d = Demand(w.g)
        w.other = None
        ids = [int(o.id) for o in w.g.get_nodes()]
        w.ref = {(i, j): 0 for i in ids for j in ids}
        return w

    def apply(self, ctx, w, op):
        if op[0] == "set":
            _, i, j, v = op
            if (i, j) in w.ref and v >= 0:
                w.d.change_vij(i, j, v)
                w.ref[i, j] = v
            else:
                ctx.rejects(lambda: w.d.change_vij(i, j, v), "an invalid edit was accepted: %r" % (op,), REJECT)
        elif op[0] == "other":
            # a second matrix over the same city is independent
            w.other = Demand(w.g)
            k = sorted(w.ref)[0]
            w.other.change_vij(k[0], k[1], 77)
            ctx.close(w.other.get_total_trips(), 77, "total of a fresh matrix")
        elif op[0] == "save":
            p = stale(scratch("m.csv"))
            w.d.matrix_to_file(p)
            d2 = Demand.build_from_file(w.g, p)
            os.unlink(p)
            self.same(ctx, d2, w.ref, "read back")
        self.same(ctx, w.d, w.ref, "after %r" % (op,))
        ctx.validated()

    def same(self, ctx, d, ref, what):
        m = d.get_matrix()
        cells = {(int(i), int(j)): v for i in list(m) for j, v in list(m[i].items())}
        ctx.equal(cells, ref, "trips of the matrix %s" % what)
        ctx.close(d.get_total_trips(), sum(ref.values()), "total trips %s" % what)

    def key(self, w):
        return snapshot([w.d, sorted(w.ref.items()), w.other])


def contents(ctx):
    """building from a full matrix: every small matrix, every wrong shape"""
    shape = ctx.choose("city", ["sym", "ids"])
    n = ctx.choose("n", [1, 2, 3])
    g = city(n, shape=shape)
    ids = [int(o.id) for o in g.get_nodes()]
    N = len(ids)
    fault = ctx.choose("fault", ["none", "rows-", "rows+", "row short", "row long", "negative", "empty"])
    m = [[(i * N + j) * 0.5 for j in range(N)] for i in range(N)]
    if fault == "none":
        if n == 1:
            m = [[ctx.choose("m[%d][%d]" % (i, j), [0, 3.25]) for j in range(N)] for i in range(N)]
        else:
            i, j = ctx.choose("row", list(range(N))), ctx.choose("col", list(range(N)))
            m[i][j] = ctx.choose("v", [0, 1e6 + 0.125])
    else:
        k = ctx.choose("where", list(range(N)))
        if fault == "rows-":
            del m[k]
        elif fault == "rows+":
            m.insert(k, [0] * N)
        elif fault == "row short":
            del m[k][-1]
        elif fault == "row long":
            m[k].append(0)
        elif fault == "negative":
            m[k][ctx.choose("col", list(range(N)))] = ctx.choose("by", [-1e-12, -3])
        else:
            m[k] = []
    ctx.state((shape, n, m))
    ctx.step((shape, n, fault))
    if fault == "none":
        d = Demand.build_from_content(g, m)
        got = d.get_matrix()
        for i in range(N):
            for j in range(N):
                ctx.close(got[ids[i]][ids[j]], m[i][j], "trips of cell (%d,%d)" % (i, j), abs_=1e-12)
        ctx.close(d.get_total_trips(), sum(map(sum, m)), "total trips of a matrix given as content")
    else:
        ctx.rejects(lambda: Demand.build_from_content(g, m), "a matrix with a fault (%s) was accepted" % fault, REJECT)
    ctx.validated()
    ctx.outcome = fault


def twice(ctx):
    """one table of trips given to one city after another, each demand edited afterwards; the table is the caller's"""
    menu = [(2, "sym"), (2, "ids"), (2, "asym"), (1, "sym")]
    plan = [ctx.choose("city %d" % t, menu) for t in range(3)]
    n = plan[0][0]
    rows = [[(i * 7 + j) * 0.5 for j in range(2 * n + 1)] for i in range(2 * n + 1)]
    if ctx.flag("one row"):                  # the same list for every row
        rows = [rows[1]] * len(rows)
    keep = [list(r) for r in rows]
    made = []
    gs = [city(k, shape=shape) for k, shape in plan]
    for t, g in enumerate(gs + [gs[0]]):
        ids = [int(o.id) for o in g.get_nodes()]
        ctx.step((plan, t))
        if len(ids) != len(rows):
            ctx.rejects(lambda: Demand.build_from_content(g, rows), "a table of another size was accepted", REJECT)
            continue
        d = Demand.build_from_content(g, rows)
        ctx.equal(rows, keep, "the table that was given")
        ref = {(a, b): keep[i][j] for i, a in enumerate(ids) for j, b in enumerate(ids)}
        made.append((d, ref, ids))
        for k in range(2):
            for x, r, q in made:
                m = x.get_matrix()
                ctx.equal({(int(a), int(b)): m[a][b] for a in list(m) for b in list(m[a])}, r, "trips of matrix %d" % t)
                ctx.close(x.get_total_trips(), sum(r.values()), "total of matrix %d" % t)
            if k == 0:
                d.change_vij(ids[-1], ids[0], 55.0 + t)
                ref[ids[-1], ids[0]] = 55.0 + t
        ctx.equal(rows, keep, "the table that was given, after an edit")
    rows[0][0] = -5.0
    for x, r, q in made:
        ctx.equal(x.get_matrix()[q[0]][q[0]], r[q[0], q[0]], "trips after the caller changed the table")
    ctx.state((plan, keep))
    ctx.validated()


VALUES = [5, 5.0000000001, 1e-10, 1e-300, 1e12, 0, 4.9999999999999, 0.1 + 0.2, 0.3]


def close_values(ctx):
    """histories of values that hardly differ, or differ by many orders of magnitude, in one or two cells"""
    g = city(2, shape=ctx.choose("city", ["sym", "ids"]))
    ids = [int(o.id) for o in g.get_nodes()]
    cells = [(ids[1], ids[3]), (ids[3], ids[1])]
    d = Demand(g)
    ref = {(i, j): 0 for i in ids for j in ids}
    top = 0                             # a running total may keep the rounding of the largest value
    for k in range(4 if ctx.thorough else 3):
        c = ctx.choose("cell %d" % k, cells)
        v = ctx.choose("value %d" % k, VALUES)
        d.change_vij(c[0], c[1], v)
        ref[c] = v
        top = max(top, v)
        ctx.step((c, v))
        m = d.get_matrix()
        ctx.equal({(int(i), int(j)): x for i in list(m) for j, x in list(m[i].items())}, ref, "trips of the matrix after setting %r" % v)
        ctx.check(abs(d.get_total_trips() - sum(ref.values())) <= 1e-14 * top, "total trips after setting %r" % v,
                  got=d.get_total_trips(), want=sum(ref.values()))
    ctx.state(sorted(ref.items()))
    ctx.validated()


def large(ctx):
    """a large city: every cell edited once, some of them again, edits refused in between"""
    n = ctx.choose("n", [12, 16, 25])
    g = city(n, shape="ids" if n == 12 else "sym")
    ids = [int(o.id) for o in g.get_nodes()]
    start = ctx.choose("start", ["empty", "full"])
    order = ctx.choose("order", ["rows", "columns", "backwards", "diagonals"])
    N = len(ids)
    if start == "full":
        m = [[(i * N + j) * 0.5 for j in range(N)] for i in range(N)]
        d = Demand.build_from_content(g, m)
        ref = {(ids[i], ids[j]): m[i][j] for i in range(N) for j in range(N)}
    else:
        d = Demand(g)
        ref = {(i, j): 0 for i in ids for j in ids}
    cells = list(ref)
    if order == "columns":
        cells.sort(key=lambda c: c[::-1])
    elif order == "backwards":
        cells = cells[::-1]
    elif order == "diagonals":
        cells.sort(key=lambda c: (ids.index(c[1]) - ids.index(c[0])) % N)
    for k, c in enumerate(cells + cells[:50] + cells[-50:]):
        v = (k * 7) % 23 + 0.25
        d.change_vij(c[0], c[1], v)
        ref[c] = v
        ctx.step()
        ctx.close(d.get_total_trips(), sum(ref.values()), "total trips after %d edits" % (k + 1))
        got = d.get_matrix()
        ctx.close(got[c[0]][c[1]], v, "trips of the cell that was set")
        if k % N == 0:
            ctx.rejects(lambda: d.change_vij(c[0], c[1], -1), "negative trips were accepted", REJECT)
            ctx.rejects(lambda: d.change_vij(c[0], 9999, 1), "trips to an unknown place were accepted", REJECT)
            ctx.equal({(int(i), int(j)): x for i in list(got) for j, x in list(got[i].items())}, ref, "trips of the matrix after %d edits" % (k + 1))
    ctx.state((n, start, order))
    p = stale(scratch("m.csv"))
    d.matrix_to_file(p)
    back = Demand.build_from_file(g, p)
    os.unlink(p)
    for x, what in ((d, "after all edits"), (back, "read back")):
        got = x.get_matrix()
        ctx.equal({(int(i), int(j)): y for i in list(got) for j, y in list(got[i].items())}, ref, "trips of the matrix " + what)
        ctx.close(x.get_total_trips(), sum(ref.values()), "total trips " + what)
    ctx.validated()


HARNESSES = [("twice", twice), ("large", large), ("contents", contents), ("close values", close_values)]
MODELS = [Edits("edits-sym", lambda: city(1), [0, 1, 2], [3, -1], 4),
          Edits("edits-ids", lambda: city(1, shape="ids"), [12, 1, 112], [0, 1], 3)]
BOUNDS = {"quick": "one table given to every sequence of three of four cities; cities of 12, 16 and 25 zones with every cell edited in four orders; all edit histories of length <= 4 (<= 3 for the imported city) over 127 edits on 3-node cities (states merged when structurally "
                   "identical); all 2-valued 3x3 matrices; histories of 3 edits of two cells over 9 values that hardly differ or differ greatly", "thorough": "one edit longer"}
