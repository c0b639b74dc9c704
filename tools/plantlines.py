"""Planted bugs which only change lines that commits in /repo added: those do not count."""
import os, re, subprocess
BASE = "4614fc7"
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")


def added(path):
    out, at = set(), 0
    for l in subprocess.run(["git", "-C", "/repo", "diff", "-U0", BASE, "HEAD", "--", path], capture_output=True).stdout.decode("utf8", "replace").split("\n"):
        m = re.match(r"@@ -\S+ \+(\d+)", l)
        if m:
            at = int(m[1])
        elif l.startswith("+") and not l.startswith("+++"):
            out.add(at)
            at += 1
    return out


for b in sorted(os.listdir(here)):
    ok, f, mine, at = False, None, set(), 0
    run = None
    for l in open(os.path.join(here, b, "patch.diff"), newline="").read().split("\n") + ["@@ -0 +0"]:
        if run is not None and not (l.startswith("-") or l.startswith("+")):
            gone, where = run
            old = [x not in mine for x in (gone or [where - 1, where]) if x > 0]
            ok |= (any(old) if gone else all(old))
            run = None
        m = re.match(r"@@ -(\d+)", l)
        if l.startswith("--- a/"):
            f = l[6:].strip()
            mine = added(f)
        elif m:
            at = int(m[1])
        elif l.startswith("-") and not l.startswith("---"):
            run = run or ([], at)
            run[0].append(at)
            at += 1
        elif l.startswith("+") and not l.startswith("+++"):
            run = run or ([], at)
        elif l.startswith(" "):
            at += 1
    if not ok:
        print(b)
