"""Systematic mutants of whole functions: stale caches, changed arguments, swallowed refusals.

Not a check, like mutate.py: every function of the library gets a wrapper of each kind.
usage: wraps.py OUT.jsonl [kind,kind] [file substring ...]
"""
import ast
import json
import os
import shutil
import sys
from multiprocessing import Pool

from mutate import CHECKS, LANES, REPO, run

TEXT = '''

def _wrapped(cls, name, kind):
    import functools
    kept = {}

    def see(o, values):
        if isinstance(o, (str, int, float, bool, type(None))):
            return (type(o).__name__, str(o)) if values else type(o).__name__
        if isinstance(o, dict):
            return tuple((see(k, True), see(x, values) if values else 0) for k, x in list(o.items()))
        if isinstance(o, (list, tuple)):
            return tuple(see(x, values) for x in o) if values else len(o)
        if hasattr(o, "id") or hasattr(o, "name"):
            return (type(o).__name__, str(getattr(o, "id", None)), str(getattr(o, "name", None)))
        return type(o).__name__

    raw = cls.__dict__[name]
    static = isinstance(raw, staticmethod)
    fn = raw.__func__ if isinstance(raw, (staticmethod, classmethod)) else raw

    @functools.wraps(fn)
    def wrapper(*a, **k):
        rest = a if static else a[1:]
        if kind == "self-full":          # what the object was when first asked
            key = (id(a[0]), see(rest, True), see(k, True))
        elif kind == "self":             # as above, and numbers of arguments are not looked at
            key = (id(a[0]), see(rest, False), see(k, False))
        elif kind == "class":            # one answer for all objects
            key = (see(rest, True), see(k, True))
        elif kind == "last":             # nothing but the first argument counts
            key = tuple(see(x, True) for x in rest[:1])
        elif kind == "changes":
            try:
                return fn(*a, **k)
            finally:
                for x in list(rest) + list(k.values()):
                    if isinstance(x, list):
                        x.reverse()
                    elif isinstance(x, dict):
                        for q in list(x)[:1]:
                            x[q] = x.pop(q)
        elif kind == "swallow":
            try:
                return fn(*a, **k)
            except Exception:
                return None
        elif kind == "alias":            # the object handed out first is filled anew
            r = fn(*a, **k)
            old = kept.setdefault("x", r)
            if old is not r and isinstance(r, list) and isinstance(old, list):
                old[:] = r
                return old
            if old is not r and isinstance(r, dict) and isinstance(old, dict):
                new = list(r.items())
                old.clear()
                old.update(new)
                return old
            return r
        if key not in kept:
            kept[key] = (fn(*a, **k), a)
        return kept[key][0]

    setattr(cls, name, staticmethod(wrapper) if static else classmethod(wrapper) if isinstance(raw, classmethod) else wrapper)


_wrapped(%s, %r, %r)
'''
KINDS = ["self-full", "class", "changes", "alias", "swallow", "self", "last"]


def main():
    out = sys.argv[1]
    kinds = sys.argv[2].split(",") if len(sys.argv) > 2 else KINDS
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["desc"]))
    jobs = []
    for kind in kinds:
        for suffix, checks in CHECKS.items():
            if sys.argv[3:] and not any(s in suffix for s in sys.argv[3:]):
                continue
            for root, _, files in os.walk(REPO + "/sidermit"):
                for name in files:
                    full = os.path.join(root, name)
                    if not full.endswith(suffix):
                        continue
                    path = os.path.relpath(full, REPO)
                    source = open(full).read()
                    for c in ast.parse(source).body:
                        if not isinstance(c, ast.ClassDef):
                            continue
                        for f in c.body:
                            if not isinstance(f, ast.FunctionDef):
                                continue
                            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
                            if f.decorator_list and not static:
                                continue
                            if f.name == "__init__" and kind != "changes":
                                continue
                            if static and kind.startswith("self"):
                                continue
                            returns = any(isinstance(x, ast.Return) and x.value is not None and not
                                          (isinstance(x.value, ast.Constant) and isinstance(x.value.value, bool)) for x in ast.walk(f))
                            if kind not in ("changes", "swallow") and not returns:
                                continue
                            if kind == "swallow" and not any(isinstance(x, ast.Raise) for x in ast.walk(f)):
                                continue
                            if kind == "alias" and not any(w in ast.unparse(f.returns).lower() for w in ("list", "dic", "tuple")) if f.returns else False:
                                continue
                            n = f.name
                            if n.startswith("__") and not n.endswith("__"):
                                n = "_%s%s" % (c.name, n)
                            desc = "%s %s.%s" % (kind, c.name, n)
                            if (path, desc) not in done:
                                jobs.append((path, f.lineno, desc, source + TEXT % (c.name, n, kind), checks.split()))
    if os.environ.get("COUNT"):
        print(len(jobs))
        return
    with Pool(LANES) as pool, open(out, "a") as f:
        for result in pool.imap_unordered(run, jobs):
            f.write(json.dumps(result) + "\n")
            f.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
