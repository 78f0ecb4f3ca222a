#!/usr/bin/env python3
"""origlines.py: for each planted bug, tell which lines of /repo's HEAD it removes or changes and whether they are of the original commit."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()[0]
for b in sorted(os.listdir(V + "/seeded")):
    f, o, n, bad, add = None, 0, 0, 0, 0
    for l in open(V + "/seeded/%s/patch.diff" % b, errors="replace"):
        m = re.match(r"--- a/(\S+)", l)
        if m: f = m.group(1); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: o = int(m.group(1)); continue
        if l.startswith("+++"): continue
        if l.startswith("-") and f:
            s = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (o, o), "HEAD", "--", f], stdout=subprocess.PIPE, text=True, errors="replace").stdout
            n += s.startswith("^"); bad += not s.startswith("^"); o += 1
        elif l.startswith("+"): add += 1
        elif l.startswith(" "): o += 1
    print(b, "original lines:", n, "ours:", bad, "added:", add, "" if n else "<-- NONE ORIGINAL")
