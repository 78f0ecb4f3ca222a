#!/usr/bin/env python3
"""confirm.py ID [--checks C01,C02|own|all|none]: confirm a planted bug in a scratch copy (bind-mounted over /repo in a user
namespace): patch applies, builds, stable tests pass, demo fails with it and passes without it; then run checks against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ns(copy, script):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def main():
    bid = sys.argv[1]; checks = "own"
    if "--checks" in sys.argv: checks = sys.argv[sys.argv.index("--checks") + 1]
    d = os.path.join(V, "seeded", bid); meta = json.load(open(d + "/meta.json"))
    man = json.load(open(V + "/MANIFEST.json"))
    ids = {"own": [meta["property"]], "none": [], "all": [c["property"] for c in man["checks"]]}.get(checks) 
    if ids is None: ids = checks.split(",")
    tmp = tempfile.mkdtemp(prefix="pl.", dir="/tmp"); cp = tmp + "/repo"; out = [bid, meta["property"]]
    try:
        shutil.copytree("/repo", cp, symlinks=True)
        demo = tmp + "/demo"; os.mkdir(demo)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy2(os.path.join(d, f), demo)
        if "--nodemo" not in sys.argv:
            r = ns(cp, "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh" % demo)
            out.append("demo-clean=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
        r = ns(cp, "git apply %s/patch.diff" % d)
        if r.returncode: print(r.stdout); out.append("PATCH-FAILS")
        if "--nodemo" not in sys.argv:
            r = ns(cp, "bash /opt/vp/test.sh %s/out.json" % tmp)
            b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; o = json.load(open(tmp + "/out.json"))["passed"]
            miss = [x for x in b if x not in o]; out.append("tests=" + ("ok" if not miss else "BROKEN" + str(miss)))
            r = ns(cp, "timeout 300 bash %s/demo.sh" % demo)
            out.append("demo-bug=%d" % r.returncode)
            if r.returncode == 0: print(r.stdout[-1500:])
        for c in ids:
            r = ns(cp, "cd %s && VERIF_SEED=%s VERIF_TIER=quick python3 check.py %s" % (V, os.environ.get("SEED", "1"), c))
            out.append("%s=%s" % (c, {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "rc%d" % r.returncode)))
            if "-v" in sys.argv or r.returncode not in (0, 1): print(r.stdout[-3000:])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    print(" ".join(out), flush=True)
main()
