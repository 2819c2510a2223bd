"""Plain mutations of /repo: which survive the tests and then the checks?

Not a check: a way to look for behaviour no property watches.  Works in scratch copies.
usage: mutate.py OUT.jsonl [file substring ...]
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from multiprocessing import Pool, current_process

REPO = "/repo"
LANES = int(os.environ.get("LANES", "4"))
CHECKS = {
    "city/graph.py": "C01 C02 C03 C04 C26",
    "city/demand.py": "C05 C06 C07",
    "publictransportsystem/network.py": "C10 C08 C09 C26",
    "publictransportsystem/mode.py": "C11 C09",
    "publictransportsystem/passenger.py": "C11",
    "preoptimization/extended_graph.py": "C12 C24 C13",
    "preoptimization/hyper_path.py": "C13 C14 C24 C26",
    "preoptimization/assignment.py": "C15 C16 C24",
    "optimization/users_cost.py": "C17",
    "optimization/operators_cost.py": "C18",
    "optimization/infrastructure_cost.py": "C19",
    "optimization/constrains.py": "C20",
    "optimization/optimizer.py": "C22 C24 C21 C23 C27",
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
NAMES = {"nodes_sequence_i": "nodes_sequence_r", "stops_sequence_i": "stops_sequence_r", "periphery": "subcenter",
         "x": "y", "node1": "node2", "nodei": "nodej", "stops_sequence_i ": "nodes_sequence_i", "radius": "angle",
         "pv": "pw", "pa": "pv", "spv": "spw", "spa": "spv", "spw": "spa", "co": "c1", "c1": "co", "t": "f", "f": "t",
         "fmax": "kmax", "kmax": "fmax"}
NAMES.update({b: a for a, b in list(NAMES.items()) if b not in NAMES})
STRS = {"I": "R", "R": "I", "P": "SC", "SC": "P"}


def mutants(source):
    tree = ast.parse(source)
    out = []
    nodes = list(ast.walk(tree))

    def emit(desc, node):
        ast.fix_missing_locations(tree)
        text = ast.unparse(tree)
        out.append((getattr(node, "lineno", 0), desc, text))

    skip = set()
    for node in nodes:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and \
                isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            skip.add(id(node.body[0]))
        if isinstance(node, ast.Raise):
            for sub in ast.walk(node):
                skip.add(id(sub))
        if isinstance(node, (ast.FunctionDef,)):
            for part in [node.returns] + [a.annotation for a in node.args.args]:
                if part is not None:
                    for sub in ast.walk(part):
                        skip.add(id(sub))
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.add(id(node))
    for node in nodes:
        if id(node) in skip and not isinstance(node, ast.Raise):
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                new = SWAP.get(type(op))
                if new:
                    node.ops[i] = new()
                    emit("%s->%s" % (type(op).__name__, new.__name__), node)
                    node.ops[i] = op
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.op, ast.Add) and any(isinstance(s, ast.Constant) and isinstance(s.value, str)
                                                    for s in (node.left, node.right)):
                continue
            old = node.op
            node.op = BIN[type(old)]()
            emit("%s->%s" % (type(old).__name__, type(node.op).__name__), node)
            node.op = old
        if isinstance(node, ast.BoolOp):
            old = node.op
            node.op = ast.Or() if isinstance(old, ast.And) else ast.And()
            emit("and<->or", node)
            node.op = old
            if len(node.values) > 1:
                for i in range(len(node.values)):
                    values = node.values
                    node.values = values[:i] + values[i + 1:]
                    if len(node.values) == 1:
                        node.values = node.values * 2
                    emit("drop operand %d" % i, node)
                    node.values = values
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            old = node.op
            node.op = ast.UAdd()
            emit("-x->x", node)
            node.op = old
        if isinstance(node, ast.Constant):
            old = node.value
            if isinstance(old, bool):
                news = [not old]
            elif isinstance(old, (int, float)):
                news = [old + 1] + ([old - 1] if old else []) + ([old * 1.001] if isinstance(old, float) else [])
            elif isinstance(old, str):
                news = [STRS[old]] if old in STRS else []
            else:
                news = []
            for new in news:
                node.value = new
                emit("%r->%r" % (old, new), node)
                node.value = old
        if isinstance(node, ast.Attribute) and node.attr in NAMES:
            old = node.attr
            node.attr = NAMES[old]
            emit("%s->%s" % (old, node.attr), node)
            node.attr = old
        if isinstance(node, ast.If):
            old = node.test
            for value in (True, False):
                node.test = ast.Constant(value)
                emit("if %s" % value, node)
            node.test = old
        for field in ("body", "orelse"):
            seq = getattr(node, field, None)
            if not isinstance(seq, list):
                continue
            for i, st in enumerate(seq):
                if id(st) in skip and not isinstance(st, ast.Raise):
                    continue
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Raise)):
                    # breaks after a match and aliases of types change nothing
                    if isinstance(st, ast.Break) or isinstance(node, ast.Module):
                        continue
                    seq[i] = ast.copy_location(ast.Pass(), st)
                    emit("delete: " + ast.unparse(st)[:70], st)
                    seq[i] = st
            if field == "body" and isinstance(node, (ast.For,)):
                old = node.iter
                node.iter = ast.parse("list(%s)[1:]" % ast.unparse(old), mode="eval").body
                emit("for: first dropped", node)
                node.iter = ast.parse("list(%s)[:-1]" % ast.unparse(old), mode="eval").body
                emit("for: last dropped", node)
                node.iter = old
    return out


def lane():
    n = current_process()._identity[0]
    base = "/tmp/mut/lane%d" % n
    if not os.path.isdir(base):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree(REPO, base, symlinks=True)
    return base, "/tmp/mut/out%d" % n


def run(job):
    path, line, desc, text, checks = job
    base, out = lane()
    full = os.path.join(base, path)
    original = open(os.path.join(REPO, path)).read()
    result = {"file": path, "line": line, "desc": desc, "tests": None, "killed": None, "odd": {}}
    try:
        open(full, "w").write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        try:
            rc = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"], cwd=base,
                                env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40).returncode
        except subprocess.TimeoutExpired:
            rc = 99
        result["tests"] = rc
        if rc == 0:
            for check in checks:
                env2 = dict(env, VERIF_REPO=base, VERIF_OUT=out)
                try:
                    p = subprocess.run([sys.executable, "check.py", check], cwd="/verif", env=env2, timeout=600,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 98
                if rc == 1:
                    result["killed"] = check
                    break
                if rc != 0:
                    result["odd"][check] = rc
    finally:
        open(full, "w").write(original)
    return result


def main():
    out = sys.argv[1]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["desc"]))
    jobs = []
    for suffix, checks in CHECKS.items():
        if sys.argv[2:] and not any(s in suffix for s in sys.argv[2:]):
            continue
        for root, _, files in os.walk(REPO + "/sidermit"):
            for name in files:
                full = os.path.join(root, name)
                if full.endswith(suffix):
                    path = os.path.relpath(full, REPO)
                    for line, desc, text in mutants(open(full).read()):
                        if (path, line, desc) not in done:
                            jobs.append((path, line, desc, text, checks.split()))
    if os.environ.get("COUNT"):
        print(len(jobs))
        return
    with Pool(LANES) as pool, open(out, "a") as f:
        for i, result in enumerate(pool.imap_unordered(run, jobs)):
            f.write(json.dumps(result) + "\n")
            f.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
