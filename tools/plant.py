#!/usr/bin/env python3
"""python3 tools/plant.py SPECFILE [ids...] [--nocheck]

Plants the bugs described in a spec file (see tools/plants/*.py) in a scratch copy of /repo, confirms that the existing
tests still pass and that the demonstration separates the two trees, runs the property's quick check against the scratch
copy, and keeps the bug as /verif/seeded/<id>/.  A development tool: no check uses it.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
"""
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def env_for(tree, tmp):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=tree, MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(tmp, "mpl"), LC_ALL="C.UTF-8")
    env.pop("VERIF_CHILD", None)
    return env


def tests_pass(tree, tmp):
    report = os.path.join(tmp, "junit.xml")
    subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-o", "junit_family=xunit2",
                    "--junitxml=" + report], cwd=tree, env=env_for(tree, tmp), capture_output=True, timeout=300)
    out = os.path.join(tmp, "out.json")
    subprocess.run([PY, "/opt/vp/results.py", out, "junit:" + report], env=env_for(tree, tmp), capture_output=True)
    res = json.load(open(out))
    return STABLE - set(res["passed"])


def demo(tree, d, tmp):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, env=env_for(tree, tmp), capture_output=True,
                       text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def one(bug, check=True):
    tmp = tempfile.mkdtemp(prefix="plant-%s-" % bug["id"])
    lines = ["== %s (%s)" % (bug["id"], bug["property"])]
    keep = True
    try:
        tree = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        rc, out = demo(tree, d, tmp)
        if rc != 0:
            return ["%s: DEMO FAILS ON CLEAN TREE rc=%d\n%s" % (bug["id"], rc, out)], None
        for file, old, new in bug["edits"]:
            p = os.path.join(tree, file)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return ["%s: edit matches %d times: %r" % (bug["id"], s.count(old), old[:80])], None
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True, check=True).stdout
        missing = tests_pass(tree, tmp)
        if missing:
            lines.append("   TESTS FAIL: %s" % sorted(missing)[:4])
            keep = False
        rc, out = demo(tree, d, tmp)
        if rc == 0:
            lines.append("   DEMO PASSES WITH PATCH")
            keep = False
        else:
            lines.append("   demo: " + (out.strip().splitlines() or [""])[-1][:150])
        caught = None
        if keep and check:
            env = env_for(tree, tmp)
            env["VERIF_REPO"] = tree
            env["VERIF_OUT"] = tmp
            r = subprocess.run(["python3", os.path.join(HERE, "check.py"), bug["property"], "--tier", "quick"],
                               env=env, capture_output=True, text=True, timeout=900, cwd=HERE)
            caught = r.returncode == 1 and ("VIOLATION property=%s " % bug["property"]) in r.stdout
            msg = [x for x in r.stdout.splitlines() if x.startswith("property ")]
            lines.append("   check rc=%d %s %s" % (r.returncode, "CAUGHT" if caught else "MISSED", msg[0][:200] if msg
                                                  else r.stderr[-300:]))
        if keep:
            dst = os.path.join(HERE, "seeded", bug["id"])
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(os.path.join(d, f), dst)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return lines, caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        spec = [b for b in spec if b["id"] in args[1:]]
    check = "--nocheck" not in sys.argv
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
        for lines, caught in ex.map(lambda b: one(b, check), spec):
            print("\n".join(lines), flush=True)


if __name__ == "__main__":
    main()
