"""C04 a malformed or truncated city file never yields a city"""
from common import *


def valid_lines(n, ids):
    lines = [[ids(0), "cbd", "0.5", "-0.25", "CBD", "0", "2.0"]]
    for z in range(1, n + 1):
        a = 0.2 + 5.5 / n * (z - 1)
        lines.append([ids(2 * z - 1), "p%d" % z, repr(12 * math.cos(a)), repr(12 * math.sin(a)), "P", str(z), "2.0"])
        lines.append([ids(2 * z), "s%d" % z, repr(5 * math.cos(a)), repr(5 * math.sin(a)), "SC", str(z), "2.0"])
    return [[str(f) for f in ln] for ln in lines]


def meaning(text):
    """independent reading: the list of places of the only city this text can describe, or None"""
    lines = text.split("\n")
    k = [i for i, t in enumerate(lines) if t.lower().startswith("*vertices")]
    if len(k) != 1 or len(lines[k[0]].split()) != 2:
        return None
    try:
        cnt = int(lines[k[0]].split()[1])
        rows = [ln.split() for ln in lines[k[0] + 1:k[0] + 1 + cnt]]
        if len(rows) != cnt or any(len(r) != 7 for r in rows) or cnt < 1:
            return None
        nodes = [(int(r[0]), r[1], r[4], int(r[5]), float(r[2]), float(r[3]), float(r[6])) for r in rows]
    except ValueError:
        return None
    if any(o[6] < 0 for o in nodes):
        return None
    if len({o[0] for o in nodes}) != len(nodes):
        return None
    n = (len(nodes) - 1) // 2
    want = sorted([("CBD", 0)] + [(t, z) for z in range(1, n + 1) for t in ("P", "SC")])
    if sorted((o[2], o[3]) for o in nodes) != want:
        return None
    return nodes


def representable(nodes):
    """cities with a parameter form; the others may be refused (see ASSUMPTIONS of C03)"""
    r = {t: [math.hypot(o[4], o[5]) for o in nodes if o[2] == t] for t in ("P", "SC", "CBD")}
    if len(nodes) == 1:
        return True
    if min(r["SC"]) <= 0 or sum(r["P"]) < sum(r["SC"]) * (1 + 1e-9):
        return False
    c = [o for o in nodes if o[2] == "CBD"][0]
    for o in nodes:
        if o[2] == "SC":
            d = math.atan2(o[5], o[4]) - math.atan2(c[5], c[4])
            if math.cos(d) > 0.999 and r["CBD"][0] > math.hypot(o[4], o[5]):
                return False
    return True


def judge(ctx, text, what):
    want = meaning(text)
    path = None
    ctx.state(text)
    ctx.step(what)
    if want is None:
        try:
            g = Graph.build_from_content(text)
        except Exception:
            ctx.validated()
            ctx.outcome = "rejected"
            return
        ctx.check(False, "a malformed city file was accepted (%s)" % (what,), file=text, city=view_city(g))
    else:
        try:
            g = Graph.build_from_content(text)
        except REJECT:
            if representable(want):
                raise
            ctx.outcome = "geometry without parameters"
            return
        v = view_city(g)
        ctx.equal(sorted(v["nodes"]), sorted(want), "places read from a well-formed file (%s)" % (what,))
        zl = {o[3]: [None, None] for o in want if o[3]}
        for o in want:
            if o[2] == "P":
                zl[o[3]][0] = o[0]
            if o[2] == "SC":
                zl[o[3]][1] = o[0]
        zl = [(z, zl[z][0], zl[z][1]) for z in sorted(zl)]
        ctx.equal(v["zones"], zl, "zones read from a well-formed file (%s)" % (what,))
        cbd = [o[0] for o in want if o[2] == "CBD"][0]
        check_topology(ctx, g, {o[0]: (o[4], o[5]) for o in want}, zl, cbd)
        ctx.validated()
        ctx.outcome = "accepted"


def mutate(ctx, lines, tag):
    """one deviation from a well-formed file"""
    i = ctx.choose(tag + ".line", [k for k, ln in enumerate(lines) if len(ln) >= 7])
    op = ctx.choose(tag + ".op", ["drop", "dup", "type", "zone", "id", "width", "x", "fields", "blank"])
    lines = [list(x) for x in lines]
    if op == "drop":
        del lines[i]
    elif op == "dup":
        lines.insert(ctx.choose(tag + ".at", [i + 1, 0, len(lines)]), list(lines[i]))
    elif op == "type":
        lines[i][4] = ctx.choose(tag + ".to", [t for t in ("P", "SC", "CBD", "p", "X") if t != lines[i][4]])
    elif op == "zone":
        zs = sorted({ln[5] for ln in lines if len(ln) >= 7} | {"9", "-1", "1.0", "a"})
        lines[i][5] = ctx.choose(tag + ".to", [z for z in zs if z != lines[i][5]])
    elif op == "id":
        others = [ln[0] for j, ln in enumerate(lines) if j != i and ln]
        lines[i][0] = ctx.choose(tag + ".to", others + ["987", "1.5", "x"])
    elif op == "width":
        lines[i][6] = ctx.choose(tag + ".to", ["-0.5", "0", "w", "7.25"])
    elif op == "x":
        lines[i][ctx.choose(tag + ".axis", [2, 3])] = ctx.choose(tag + ".to", ["abc", "-3.75", "1e1"])
    elif op == "fields":
        k = ctx.choose(tag + ".k", [0, 1, 3, 6, "extra"])
        if k == "extra":
            lines[i].append("9")
        else:
            del lines[i][k]
    else:
        lines[i] = []
    return lines


def mutations(ctx):
    n = ctx.choose("n", [1, 2, 0, 3])
    ids = ctx.choose("ids", [lambda k: k, lambda k: 40 - 3 * k])
    lines = valid_lines(n, ids)
    k = ctx.choose("deviations", [1, 2] if n in ((1, 2) if ctx.thorough else (1,)) else [1])
    for t in range(k):
        if not lines:
            break
        lines = mutate(ctx, lines, "d%d" % (t + 1))
    cnt = ctx.choose("announced", ["actual", "original"])
    cnt = len(lines) if cnt == "actual" else 2 * n + 1
    tail = ctx.choose("end of file", ["\n", ""])
    judge(ctx, pajek(lines, cnt, tail=tail), "%d deviations" % k)


def counts(ctx):
    """wrong announced counts and missing headers"""
    n = ctx.choose("n", [1, 0, 2, 3])
    lines = valid_lines(n, lambda k: k)
    d = ctx.choose("announced-actual", [-5, -3, -2, -1, 1, 2, 3, 4])
    c = len(lines) + d
    if c < 1:
        ctx.prune()
    tail = ctx.choose("end of file", ["\n", "", "\n\n", "\n*edges\n"])
    judge(ctx, pajek(lines, c, tail=tail), "announced count off by %d" % d)


def truncations(ctx):
    """crash while saving: every byte prefix of a saved city that lost at least one whole place"""
    n = ctx.choose("n", [1, 2, 3, 4, 6] if ctx.thorough else [1, 2, 3])
    shape = ctx.choose("shape", ["sym", "ecc"])
    text = city(n, shape=shape).export_graph()
    last = text.rstrip("\n").rfind("\n") + 1       # start of the last place
    cut = ctx.choose("bytes kept", list(range(0, last + 1)))
    t = text[:cut]
    ctx.state(t)
    ctx.step(cut)
    try:
        g = Graph.build_from_content(t)
    except Exception:
        ctx.validated()
        ctx.outcome = "rejected"
        return
    ctx.check(False, "a truncated city file (%d of %d bytes) was read as a city" % (cut, len(text)), city=view_city(g),
              file=t)


def formats(ctx):
    f = ctx.choose("format", [None, "PAJEK", 1, "csv"])
    t = pajek(valid_lines(1, lambda k: k))
    ctx.state(f)
    ctx.rejects(lambda: Graph.build_from_content(t, f), "an unsupported format was accepted: %r" % (f,), REJECT)
    ctx.validated()


HARNESSES = [("deviations", mutations), ("counts", counts), ("truncations", truncations), ("formats", formats)]
BOUNDS = {"quick": "every single deviation (9 kinds, any line) of files with 0..3 zones, every pair of deviations for one "
                   "zone, all byte truncations for 1..3 zones", "thorough": "pairs for 2 zones, truncations to 6 zones"}
ASSUMPTIONS = ["a cut inside the very last line is not detectable in this format and is not claimed"]
