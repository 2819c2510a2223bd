"""C03 a saved city reads back as the same city"""
import itertools
import subprocess
import sys
from common import *
from bfs import observe


def parse(text):
    """independent reading of the documented 7-column format"""
    lines = text.split("\n")
    k = [i for i, t in enumerate(lines) if t.lower().startswith("*vertices")]
    assert len(k) == 1
    n = int(lines[k[0]].split()[1])
    rows = [ln.split() for ln in lines[k[0] + 1:] if ln.strip()]
    return n, [(int(r[0]), r[1], r[4], int(r[5]), float(r[2]), float(r[3]), float(r[6])) for r in rows], lines[:k[0]], rows


def source_city(ctx):
    how = ctx.choose("source", ["parameters", "imported"])
    if how == "parameters":
        n = ctx.choose("n", [1, 0, 2, 3, 5, 8, 12, 22] if ctx.thorough else [1, 0, 2, 3, 5, 11, 22])
        if ctx.thorough:
            l = ctx.choose("l", [10.0, 1.0 / 3])
            g = ctx.choose("g", [0.5, 1.0])
            p = ctx.choose("p", [2, 0, 1.0 / 7])
        else:
            l, g, p = ctx.choose("l,g,p", [(10.0, 0.5, 2), (1.0 / 3, 1.0, 1.0 / 7)])
        if n == 0:
            return Graph.build_from_parameters(n, l, g, p)
        ang = ctx.choose("angles", [k for k in ANGLES])
        gi = ctx.choose("Gi", list(GI))
        # peripheries on average at least as far out as subcentres
        hi = ctx.choose("Hi", ["none", "ramp", "drop"])
        # an eccentric centre in every zone (angles that are not recovered exactly from the coordinates)
        plain = gi == hi == "none" and ang in ("none", "uneven")
        ez = ctx.choose("etha_zone", [None] + (list(range(1, n + 1)) if plain else sorted({1, n})))
        etha = ctx.choose("etha", [0.3, 0, 1] if ez in (1, n) else [0.3]) if ez else None
        a = ref_city(n, l, g, p, etha, ez, ANGLES[ang](n), GI[gi](n), HI[hi](n))
        rp = sum(o[6] for o in a if o[2] == "P")
        rs = sum(o[6] for o in a if o[2] == "SC")
        if rp < rs * (1 + 1e-9):
            ctx.prune()
        return Graph.build_from_parameters(n, l, g, p, etha, ez, ANGLES[ang](n), GI[gi](n), HI[hi](n))
    n = ctx.choose("n", [1, 2, 4, 10, 21])
    ids = ctx.choose("ids", ["offset", "reversed", "negative", "big", "cbd-last"])
    names = ctx.choose("names", ["plain", "accents", "digits", "long"])
    w = ctx.choose("width", ["same", "each"])
    ids = {"offset": lambda k: k + 10, "reversed": lambda k: 2 * n - k, "negative": lambda k: k - 5,
           "big": lambda k: 10 ** 6 + 37 * k, "cbd-last": lambda k: k if k else 500}[ids]
    nm = {"plain": lambda k: "n%d" % k, "accents": lambda k: "Ñuñoa-%d-é" % k, "digits": lambda k: "%d" % (7 * k),
          "long": lambda k: "a-place-with-a-name-that-goes-on-and-on-and-on-and-on-%d" % k}[names]
    lines = [(ids(0), nm(0), 0.125, -1.0 / 3, "CBD", 0, 2.5)]
    for z in range(1, n + 1):
        a = 0.2 + 6.0 / n * (z - 1)
        wp, ws = (2.5, 2.5) if w == "same" else (0.25 * z + 1e-9, z / 7.0)
        lines.append((ids(2 * z - 1), nm(2 * z - 1), 9 * math.cos(a - .03), 9 * math.sin(a - .03), "P", z, wp))
        lines.append((ids(2 * z), nm(2 * z), (4 + .1 * z) * math.cos(a), (4 + .1 * z) * math.sin(a), "SC", z, ws))
    g = Graph.build_from_content(pajek(lines))
    # the city that was imported is the one the text describes
    want = sorted((i, s, t, z, x, y, q) for i, s, x, y, t, z, q in lines)
    ctx.equal(sorted(view_city(g)["nodes"]), want, "imported city")
    return g


def same_city(ctx, g, g2, text=""):
    a, b = view_city(g), view_city(g2)
    a["nodes"].sort()
    b["nodes"].sort()
    for k in a:
        ctx.check(a[k] == b[k], "the city read back differs in its %s" % k, got=b[k], want=a[k], file=text)
    na = {o.id: o for o in g.get_nodes()}
    for o in g2.get_nodes():
        ctx.close(o.radius, na[int(o.id)].radius, "radius of place %s" % o.id)
    ctx.validated()


def body(ctx):
    g = source_city(ctx)
    before = observe(g)
    text = g.export_graph()
    ctx.step()
    ctx.check(observe(g) == before, "saving a city changed it")
    cnt, rows, head, raw = parse(text)
    v = view_city(g)
    ctx.equal(cnt, len(v["nodes"]), "announced number of places")
    ctx.equal([len(r) for r in raw], [7] * cnt, "fields per line")
    ctx.equal(sorted(rows), sorted(v["nodes"]), "lines of the saved city")
    ctx.validated()
    body_lines = [" ".join(r) for r in raw]
    n = g.get_n()
    if len(raw) <= 5 and n <= (2 if ctx.thorough else 1):
        orders = [list(o) for o in itertools.permutations(range(len(raw)))]
    else:
        orders = [list(range(len(raw))), list(range(len(raw)))[::-1],
                  list(range(1, len(raw))) + [0], sorted(range(len(raw)), key=lambda i: raw[i][1])]
    if not ctx.thorough:
        order, via = ctx.choose("line order, medium", [(orders[0], "file"), (orders[0], "over"), (orders[0], "content"), (orders[1 % len(orders)], "file"),
                                (orders[0], "crlf"), (orders[2 % len(orders)], "noheader")]
                                + [(o, "content") for o in orders[1:]])
    else:
        order = ctx.choose("line order", orders)
        via = ctx.choose("via", ["file", "over", "content", "crlf", "noheader"])
    over, via = via == "over", "file" if via == "over" else via
    same_order = list(order) == list(range(len(raw)))
    t2 = "\n".join(head) + "\n*vertices %d\n" % cnt + "\n".join(body_lines[i] for i in order) + "\n"
    ctx.step((n, via, list(order)))
    if via == "file":
        path = scratch("city.pajek")
        if same_order:
            if over:
                stale(path)
            g.graph_to_pajek_file(path)
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(t2)
        g2 = Graph.build_from_file(path)
        os.unlink(path)
    elif via == "content":
        g2 = Graph.build_from_content(text if same_order else t2)
    elif via == "crlf":
        g2 = Graph.build_from_content(t2.replace("\n", "\r\n"))
    else:
        g2 = Graph.build_from_content("*Vertices %d\n" % cnt + "\n".join(body_lines[i] for i in order) + "\n")
    ctx.state((v["nodes"], via, order))
    same_city(ctx, g, g2, t2)
    zl = [(z.id, int(z.periphery.id), int(z.subcenter.id)) for z in g2.get_zones()]
    check_topology(ctx, g2, {int(o.id): (o.x, o.y) for o in g2.get_nodes()}, zl, int(g2.get_cbd().id))
    # the reported parameters describe the same geometry when each zone lies on one ray
    # (and all widths are equal, the only case one width parameter can describe)
    rays = all(abs((z.periphery.angle - z.subcenter.angle + 180) % 360 - 180) < 1e-9 for z in g2.get_zones())
    widths = len({o.width for o in g2.get_nodes()}) == 1
    c = g2.get_cbd()
    oncenter = c.radius < 1e-12 or any(abs((c.angle - z.subcenter.angle + 180) % 360 - 180) < 1e-9 and
                                       c.radius <= z.subcenter.radius * (1 + 1e-12) for z in g2.get_zones())
    par = g2.get_parameters()
    ctx.equal(par[0], n, "number of zones reported by the city read back")
    if n and rays and widths and oncenter:
        g3 = Graph.build_from_parameters(*par)
        a = [(o.x, o.y, o.width) for o in g2.get_nodes()]
        b = [(o.x, o.y, o.width) for o in g3.get_nodes()]
        ctx.check(all(is_close(x, y, abs_=1e-6) for s, t in zip(a, b) for x, y in zip(s, t)),
                  "the parameters reported by the city read back describe another city", got=b, want=a, parameters=par)
        ctx.validated()
    # second generation
    rows2 = parse(g2.export_graph())[1]
    ctx.equal(sorted(rows2), sorted(rows), "second generation file")
    ctx.outcome = "n=%d %s" % (n, via)


CHILD = r'''
import sys
from sidermit.city import Graph
path, mode = sys.argv[1], sys.argv[2]
t = "h\n\n*vertices 3\n5 \u00d1u\u00f1oa 0 0 CBD 0 2\n6 Pe\u00f1alol\u00e9n 10 0 P 1 2\n7 \u6771\u4eac 5 0 SC 1 2\n"
g = Graph.build_from_content(t)
g.graph_to_pajek_file(path)
h = Graph.build_from_file(path)
a = sorted((int(n.id), n.name, n.x, n.y) for n in g.get_nodes())
b = sorted((int(n.id), n.name, n.x, n.y) for n in h.get_nodes())
assert a == b, "the city read back has other names"
print("same")
'''


def locales(ctx):
    """the process locale is part of the environment, not of the saved city"""
    lc = ctx.choose("locale", ["C.UTF-8", "C", "POSIX"])
    coerce = ctx.choose("coercion", ["0", "1"])
    env = {"PATH": "/usr/bin:/bin", "PYTHONPATH": os.environ["PYTHONPATH"], "LC_ALL": lc, "PYTHONUTF8": "0",
           "PYTHONCOERCECLOCALE": coerce, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "HOME": "/nonexistent",
           "MPLCONFIGDIR": os.environ["MPLCONFIGDIR"], "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    path = scratch("loc.pajek")
    r = subprocess.run([sys.executable, "-c", CHILD, path, "x"], env=env, capture_output=True, timeout=300)
    if os.path.exists(path):
        os.unlink(path)
    ctx.state((lc, coerce))
    ctx.step((lc, coerce))
    ctx.check(r.returncode == 0 and b"same" in r.stdout, "a city with accented names cannot be saved and read back "
              "under locale %s" % lc, stderr=r.stderr.decode("utf-8", "replace")[-800:])
    ctx.validated()
    ctx.outcome = lc


HARNESSES = [("roundtrip", body), ("locale", locales)]
BOUNDS = {"quick": "n in {0,1,2,3,5,11} x shapes; imported cities n in {1,2,4,10} with 5 id schemes; every line order for "
                   "one-zone cities, 4 orders otherwise; 4 media; 6 locale settings",
          "thorough": "n up to 12, every line order for n<=2"}
ASSUMPTIONS = ["names contain no whitespace (the format is whitespace separated)",
               "subcentres at a positive distance of the origin, distinct zone directions, peripheries on average not "
               "nearer than the subcentres (other cities have no parameter form and are refused on reading)"]
