#!/usr/bin/env python3
"""mut.py FILE.json [--check C16]: quick mutants (file, old, new) in a scratch copy; which does the check catch? (development only)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = json.load(open(sys.argv[1])); chk = sys.argv[2].split(","); par = int(sys.argv[3]) if len(sys.argv) > 3 else 1
def one(im):
    i, (f, old, new) = im
    t = tempfile.mkdtemp(prefix="mu.", dir="/tmp")
    try:
        shutil.copytree("/repo", t + "/repo", ignore=shutil.ignore_patterns("build", ".git"))
        shutil.copytree(V, t + "/verif", ignore=shutil.ignore_patterns("build", ".git", "replays", "evidence"))
        os.makedirs(t + "/verif/build"); 
        shutil.copytree(V + "/build/obj", t + "/verif/build/obj")
        p = t + "/repo/" + f; s = open(p, newline="").read(); crlf = "\r\n" in s
        if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
        if old not in s: return "%d NOT FOUND %s" % (i, old)
        open(p, "w", newline="").write(s.replace(old, new, 1))
        out = []
        for c in chk:
            r = subprocess.run(["python3", "check.py", c], cwd=t + "/verif", env=dict(os.environ, VERIF_REPO=t + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            out.append("%s=%s" % (c, {0: "quiet", 1: "CAUGHT" if "VIOLATION property=" in r.stdout else "ERROR " + r.stdout[-300:]}.get(r.returncode, "rc%d %s" % (r.returncode, r.stdout[-300:]))))
        return "%d %s | %s -> %s" % (i, " ".join(out), old.strip()[:60].replace("\n", " "), new.strip()[:60].replace("\n", " "))
    finally: shutil.rmtree(t, ignore_errors=True)
with ThreadPoolExecutor(par) as ex:
    for l in ex.map(one, enumerate(muts)): print(l, flush=True)
