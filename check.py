#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--cases N]: decide one property on /repo's working tree.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as B

def known_lines(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def run_vh(binary, pid, seed, tier, tmp, replaydir, cases=None, extra=()):
    js = os.path.join(tmp, pid + ".json")
    t = tempfile.mkdtemp(dir=tmp)
    cmd = [binary, "run", "--prop", pid, "--seed", str(seed), "--tier", tier, "--tmp", t, "--json", js, "--replaydir", replaydir, "--workers", "8"]
    if cases: cmd += ["--cases", str(cases)]
    p = subprocess.run(cmd + list(extra), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", cwd=t)
    if not os.path.exists(js):
        raise RuntimeError("harness gave no result (rc %s): %s" % (p.returncode, p.stderr[-2000:]))
    return json.load(open(js, errors="replace")), p

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    t0 = time.time(); pid = a.prop
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vh-")
    parts = []; violation = None; err = None
    try:
        import plans
        for step in plans.PLANS[pid](a.tier):
            r = step(dict(pid=pid, tier=a.tier, seed=a.seed, tmp=tmp, rdir=rdir, cases=a.cases, B=B, run_vh=run_vh, VERIF=VERIF))
            parts.append(r)
            if r["status"] == "violation": violation = r; break
            if r["status"] != "pass": err = r; break
        finding_lines = []
        if not violation and not err:
            for case, what in known_lines(pid):
                finding_lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
    except Exception as e:
        import traceback; traceback.print_exc()
        err = {"status": "error", "message": str(e)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = sum(p.get("cases", 0) for p in parts); nt = sum(p.get("distinct", 0) for p in parts)
    samples = [s for p in parts for s in p.get("samples", [])][:8]
    cov = {"evaluations": ev, "distinct_nontrivial": nt, "rule": " | ".join(p["rule"] for p in parts if p.get("rule")) or "none",
           "samples": samples, "oracle_comparisons": sum(p.get("comparisons", 0) for p in parts),
           "discarded_by_generator": sum(p.get("discards", 0) for p in parts),
           "classes": {k: v for p in parts for k, v in p.get("labels", {}).items()},
           "parts": [{k: p.get(k) for k in ("name", "status", "cases", "distinct", "search_s") if k in p} for p in parts]}
    if violation: cov["counterexample"] = violation["message"][:4000]
    if err: cov["error"] = str(err.get("message"))[:4000]
    evd = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
           "assumptions": ["x86-64 doubles; comparisons use the tolerance stated in DESIGN.md", "the reference model in /verif/harness is right where it is compared"],
           "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=True)
    if violation:
        print(violation["message"][:6000])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(violation["replay"], VERIF)))
        return 1
    if err:
        print("check error: %s" % err.get("message")); return 2
    for l in finding_lines: print(l)
    print("%s held: %d cases (%d distinct non-trivial), %.1f s" % (pid, ev, nt, time.time() - t0))
    return 0

if __name__ == "__main__": sys.exit(main())
