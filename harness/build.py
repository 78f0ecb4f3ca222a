#!/usr/bin/env python3
"""Build the harness (and the sanitised library) from /repo's working tree into a content-addressed directory."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
COMMON = ["-ftrivial-auto-var-init=pattern", "-g1", "-fno-omit-frame-pointer", "-w", "-D_GLIBCXX_ASSERTIONS", "-fPIC"]

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

def compile_all(jobs):
    def one(j):
        _, o, cmd = j
        if not os.path.exists(o):
            run(cmd); os.replace(o + ".tmp", o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, sorted(jobs, reverse=True)))

def repo_jobs(flavor):
    src = sorted(glob.glob(REPO + "/src/*.cpp")); hdr = sorted(glob.glob(REPO + "/include/*"))
    hk = digest(hdr, flavor + " ".join(SAN + COMMON))
    od = os.path.join(VERIF, "build", "obj"); os.makedirs(od, exist_ok=True)
    san = SAN if flavor == "asan" else []
    jobs = []
    for f in src:
        o = os.path.join(od, "r-%s-%s.o" % (os.path.basename(f), digest([f], hk)))
        jobs.append((os.path.getsize(f), o, ["g++", "-std=gnu++11", "-O1"] + san + COMMON + ["-I", REPO + "/include", "-c", f, "-o", o + ".tmp"]))
    return jobs

def repo_objects(flavor="asan"):
    jobs = repo_jobs(flavor); compile_all(jobs); return [j[1] for j in jobs]

def build(flavor="asan", only=None):
    hdr = sorted(glob.glob(REPO + "/include/*"))
    hs = sorted(glob.glob(HERE + "/*.cpp")); hh = sorted(glob.glob(HERE + "/*.h"))
    bd = os.path.join(VERIF, "build"); od = os.path.join(bd, "obj"); os.makedirs(od, exist_ok=True)
    jobs = repo_jobs(flavor); objs = [j[1] for j in jobs]
    san = SAN if flavor == "asan" else []
    hhk = digest(hh, digest(hdr, flavor + " ".join(SAN + COMMON)))
    for f in hs:
        o = os.path.join(od, "h-%s-%s.o" % (os.path.basename(f), digest([f], hhk)))
        jobs.append((10**6 + os.path.getsize(f), o, ["g++", "-std=gnu++17", "-O1"] + san + COMMON + ([] if f.endswith("engine.cpp") else ["-I", REPO + "/include"]) + ["-I", HERE, "-c", f, "-o", o + ".tmp"])); objs.append(o)
    out = os.path.join(bd, "vh-%s-%s" % (flavor, hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:16]))
    if os.path.exists(out): return out
    compile_all(jobs)
    run(["g++"] + san + objs + ["-o", out + ".tmp", "-lpthread"]); os.replace(out + ".tmp", out)
    return out

if __name__ == "__main__":
    print(build(*(sys.argv[1:])))
