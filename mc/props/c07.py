"""C07 a saved demand matrix reads back as the same matrix; malformed lines are refused"""
import itertools
from common import *
from c05 import check_matrix

VALS = [0, 1, 2.5, 1.0 / 3, 1e-7, 123456789.125, 1e16]


def body(ctx):
    n = ctx.choose("n", [1, 0, 2, 3, 6, 10, 18])
    shape = ctx.choose("city", ["sym", "ids"]) if n else "sym"
    g = city(n, shape=shape)
    ids = [int(o.id) for o in g.get_nodes()]
    d = Demand(g)
    ref = {(i, j): 0.0 for i in ids for j in ids}
    if n <= 1:
        for i in ids[:2]:
            for j in ids:
                v = ctx.choose("v[%d][%d]" % (i, j), VALS if i == ids[0] and j == ids[-1] else VALS[:4] if ctx.thorough
                               else VALS[1:4])
                d.change_vij(i, j, v)
                ref[i, j] = v
    else:
        k = ctx.choose("pattern", list(range(len(VALS))))
        for a, (i, j) in enumerate(sorted(ref)):
            ref[i, j] = VALS[(a * 3 + k) % len(VALS)]
            d.change_vij(i, j, ref[i, j])
    path = stale(scratch("d.csv"))
    d.matrix_to_file(path)
    with open(path, encoding="utf-8") as f:
        text = f.read()
    lines = text.strip().split("\n")
    ctx.equal(len(lines), len(ref) + 1, "lines of the saved matrix")
    ctx.equal(sorted(tuple(map(int, ln.split(",")[:2])) for ln in lines[1:]), sorted(ref), "pairs of the saved matrix")
    order = ctx.choose("order", ["as saved", "reversed", "rotated", "crlf"])
    if order != "as saved":
        b = lines[1:]
        b = b[::-1] if order == "reversed" else b[2:] + b[:2] if order == "rotated" else b
        with open(path, "w", encoding="utf-8", newline="") as f:
            nl = "\r\n" if order == "crlf" else "\n"
            f.write(nl.join([lines[0]] + b) + nl)
    d2 = Demand.build_from_file(g, path)
    os.unlink(path)
    ctx.step((n, shape, order))
    ctx.state((n, shape, sorted(ref.items()), order))
    m = d2.get_matrix()
    cells = {(int(i), int(j)): v for i in list(m) for j, v in list(m[i].items())}
    ctx.equal(cells, ref, "the matrix read back")
    ctx.close(d2.get_total_trips(), sum(ref.values()), "total trips read back")
    check_matrix(ctx, d, ref, "saved matrix")
    ctx.outcome = "n=%d" % n


def malformed(ctx):
    """every line of a file is checked, and duplicated pairs are not counted twice"""
    shape = ctx.choose("city", ["sym", "ids"])
    g = city(1, shape=shape)
    ids = [int(o.id) for o in g.get_nodes()]
    lines = []
    ref = {(i, j): 0.0 for i in ids for j in ids}
    k = ctx.choose("lines", [1, 2, 3, 4] if ctx.thorough else [1, 2, 3])
    bad = None
    for t in range(k):
        what = ctx.choose("line %d" % t, ["ok", "again", "negative", "origin", "destination", "short", "long", "id", "value",
                                          "empty", "no trips", "blank trips", "no origin", "no destination", "fractional", "fractional end"])
        i, j = ids[t % 3], ids[(t + 1) % 3]
        if what == "ok":
            ref[i, j] = 4.5 + t
            lines.append("%d,%d,%r" % (i, j, 4.5 + t))
        elif what == "again":
            ref[ids[0], ids[1]] = 9.0 + t
            lines.append("%d,%d,%r" % (ids[0], ids[1], 9.0 + t))
        else:
            bad = bad or what
            lines.append({"negative": "%d,%d,-1" % (i, j), "origin": "%d,%d,1" % (4321, j),
                          "destination": "%d,%d,1" % (i, 4321), "short": "%d,%d" % (i, j), "long": "%d,%d,1,1" % (i, j),
                          "id": "a%d,%d,1" % (i, j), "value": "%d,%d,many" % (i, j), "empty": "",
                          "no trips": "%d,%d," % (i, j), "blank trips": "%d,%d,  " % (i, j), "no origin": ",%d,1" % j,
                          "no destination": "%d,,1" % i,
                          "fractional": "%d.5,%d,1" % (i, j), "fractional end": "%d,%d.5,1" % (i, j)}[what])
    path = scratch("m.csv")
    with open(path, "w", encoding="utf-8") as f:
        f.write("origin,destination,vij\n" + "\n".join(lines) + "\n")
    ctx.state((shape, lines))
    ctx.step((shape, lines))
    if bad:
        ctx.rejects(lambda: Demand.build_from_file(g, path), "a malformed demand file was accepted (%s)" % bad, REJECT)
        ctx.validated()
    else:
        check_matrix(ctx, Demand.build_from_file(g, path), ref, "well-formed file")
    os.unlink(path)
    ctx.outcome = bad or "accepted"


def cities(ctx):
    """one file read for one city after another, each demand edited afterwards"""
    menu = [(1, "sym"), (2, "sym"), (3, "sym"), (1, "ids"), (2, "ids"), (3, "asym")]
    plan = [ctx.choose("city %d" % t, menu) for t in range(3)]
    pairs = ctx.choose("pairs", ["centre", "all"])
    first = ctx.choose("of the", ["first", "second"]) == "second"
    gs = [city(n, shape=shape) for n, shape in plan]
    own = [int(o.id) for o in gs[first].get_nodes()]
    text = {(i, j): 0.0 for i in own for j in own}
    for t, (i, j) in enumerate([(own[0], own[2])] if pairs == "centre" else sorted(text)):
        text[i, j] = 2.5 + t
    path = scratch("c.csv")
    d = Demand(gs[first])
    for (i, j), x in text.items():
        d.change_vij(i, j, x)
    d.matrix_to_file(path)
    if pairs == "centre":                    # only the lines that say something
        with open(path, encoding="utf-8") as f:
            lines = f.read().split("\n")
        with open(path, "w", encoding="utf-8") as f:
            f.write("\n".join(x for x in lines[:1] + [x for x in lines[1:] if x and float(x.split(",")[2])]) + "\n")
        text = {k: x for k, x in text.items() if x}
    made = []
    for t, g in enumerate(gs + [gs[0]]):
        ids = [int(o.id) for o in g.get_nodes()]
        ctx.step((plan, t))
        if not all(i in ids and j in ids for i, j in text):
            ctx.rejects(lambda: Demand.build_from_file(g, path), "a file with places of another city was accepted (city %d of %r)" % (t, plan), REJECT)
            continue
        ref = {(i, j): text.get((i, j), 0.0) for i in ids for j in ids}
        q = Demand.build_from_file(g, path)
        check_matrix(ctx, q, ref, "file read for city %d of %r" % (t, plan))
        q.change_vij(ids[0], ids[1], 77.0 + t)
        ref[ids[0], ids[1]] = 77.0 + t
        made.append((q, ref))
        for x, r in made:
            check_matrix(ctx, x, r, "one of the matrices read from one file, edited (%r)" % (plan,))
    os.unlink(path)
    ctx.state((plan, pairs, first))
    ctx.validated()


HARNESSES = [("cities", cities), ("roundtrip", body), ("lines", malformed)]
BOUNDS = {"quick": "one file read for every sequence of three of six cities, each matrix edited; n in {0,1,2,3,6,10}, two id schemes, 7 values, 4 line orders; every sequence of <=3 lines over 16 line "
                   "kinds", "thorough": "<=4 lines"}
