"""lists planted bugs that change only lines added by our own commits in /repo (they would not count)"""
import os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a):
    return subprocess.run(a, cwd="/repo", capture_output=True, text=True).stdout
mine = {l.split()[0] for l in sh("git", "log", "--format=%H %s").splitlines() if " fix:" in l}
for b in sorted(os.listdir(H + "/seeded")):
    own = other = 0
    blame = {}
    f = None
    for l in open("%s/seeded/%s/patch.diff" % (H, b), encoding="utf-8"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame.setdefault(f, [x.split()[0].lstrip("^") for x in sh("git", "blame", "-l", "-s", f).splitlines()])
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-"):
            if l[1:].strip():
                if any(m.startswith(blame[f][n][:39]) for m in mine): own += 1
                else: other += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    if not other:
        print(b, "only own lines" if own else "only additions")
