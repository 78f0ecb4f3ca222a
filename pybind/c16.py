"""C16: the Python module against the C++ library, on random histories of calls."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as B
PY = "/usr/bin/python3"

def build():
    """(directory of the module, operations program), from REPO's sources"""
    objs = B.repo_objects("asan"); R = B.REPO
    main = R + "/src/pybind11/main.cpp"
    hdr = sorted(B.glob.glob(R + "/include/*"))
    inc = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_path('include'))"], capture_output=True, text=True).stdout.strip()
    od = os.path.join(VERIF, "build", "obj")
    k = B.digest(hdr + [main], "main")
    o = os.path.join(od, "pymain-%s.o" % k)
    p = os.path.join(od, "ops-%s.o" % B.digest(hdr + [HERE + "/ops.cpp"], "ops"))
    tag = hashlib.sha256((" ".join(objs) + o + p).encode()).hexdigest()[:16]
    d = os.path.join(VERIF, "build", "py-" + tag)
    if os.path.exists(d + "/ops"): return d, d + "/ops"
    jobs = []
    if not os.path.exists(o): jobs.append((["g++", "-std=gnu++11", "-O0", "-g1", "-fPIC", "-w", "-fvisibility=hidden", "-fsanitize=address", "-I", R + "/include", "-I", R + "/pybind11/include", "-I", inc, "-c", main], o))
    if not os.path.exists(p): jobs.append((["g++", "-std=gnu++11", "-O1"] + B.SAN + B.COMMON + ["-I", R + "/include", "-c", HERE + "/ops.cpp"], p))
    def one(j): B.run(j[0] + ["-o", j[1] + ".tmp"]); os.replace(j[1] + ".tmp", j[1])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    os.makedirs(d + ".tmp", exist_ok=True)
    B.run(["g++", "-shared"] + B.SAN + objs + [o, "-o", d + ".tmp/stlrom.so"])
    B.run(["g++"] + B.SAN + objs + [p, "-o", d + ".tmp/ops"])
    shutil.rmtree(d, ignore_errors=True); os.rename(d + ".tmp", d)
    return d, d + "/ops"

# ---------------------------------------------------------------- generation
def h(x): return str(int(x)) if x == int(x) and abs(x) < 1e9 else float(x).hex()
class Gen:
    def __init__(self, r):
        self.r = r; self.d = {}; self.m = {}; self.g = {}; self.p = set(); self.q = set(); self.ops = []; self.t = {}
    def val(self):
        r = self.r; k = r.random()
        return float(r.randint(-5, 5)) if k < .5 else r.randint(-20, 20) / 4 if k < .8 else r.uniform(-10, 10) if k < .97 else r.choice([1e9, -1e-9, 12345.678, 0.1])
    def tim(self): return self.r.choice([0., 0., 1., 2., .5, -1., 3., self.r.randint(0, 40) / 4, self.r.uniform(0, 8)])
    def formula(self, dep, names):
        r = self.r
        if dep == 0 or r.random() < .3:
            if names and r.random() < .2: return r.choice(names)
            e = "%s[t]" % r.choice("xxy")
            if r.random() < .3: e += r.choice([" + ", " - ", "*"]) + r.choice(["2", "y[t]", "p", "0.5"])
            return "%s %s %s" % (e, r.choice(["<", ">", "<=", ">="]), r.choice(["p", "0", "1.5", "-2", "y[t]"]))
        k = r.randint(0, 6); s = lambda: "(" + self.formula(dep - 1, names) + ")"
        w = r.choice(["[0,1]", "[0, 2.5]", "[1,3]", "[0,b]", "[p,b]", "[0.5,0.5]"]) if r.random() < .97 else "[3,1]"
        if w == "[p,b]" and r.random() < .8: w = "[0,b]"
        return ["not " + s(), s() + " and " + s(), s() + " or " + s(), s() + " => " + s(), "ev_%s " % w + s(), "alw_%s " % w + s(), s() + " until_%s " % w + s()][k]
    def spec(self):
        r = self.r; t = ""
        if r.random() < .9: t += r.choice(["signal x, y\n", "signal x,y,z\n", "signal y, x\n"])
        if r.random() < .9: t += "param p = %s, b = %s\n" % (r.choice(["0", "1.5", "-2", "1e0"]), r.choice(["0", "1", "2.5", "3"]))
        names = []
        for i in range(r.randint(1, 3)):
            n = r.choice(["phi", "phi", "psi", "mu"]); t += "%s := %s\n" % (n, self.formula(r.randint(0, 3), names)); names.append(n)
        if r.random() < .04: t = "# caf\u00e9 \u2200t\n" + t
        if r.random() < .06: t = t.replace(r.choice(["(", ":=", "]", "signal"]), r.choice(["", "@", "))"]), 1)
        return t
    def rowsof(self, k, w):
        t = 0.; o = []
        if self.r.random() < .04: k = self.r.randint(60, 300)
        for i in range(k): o.append([t] + [self.val() for _ in range(w)]); t += self.r.choice([1., 1., .5, .25, .3])
        return ";".join(" ".join(h(x) for x in v) for v in o)
    def op(self, *a): self.ops.append([str(x) for x in a])
    def width(self): return self.r.choice([2] * 14 + [3, 1])
    def run(self, n):
        r = self.r; S = "abc"
        if r.random() < .85:
            self.op(r.choice(["d.new", "d.new", "d.sub"]), "a"); self.d["a"] = 1; self.op("d.parse", "a", self.spec())
            if r.random() < .7: self.op("d.data=", "a", self.rowsof(r.randint(1, 8), 2))
        while len(self.ops) < n:
            k = r.choices("dmsSpqg", [10, 10, 6, 1, 1, 1, .4])[0]
            getattr(self, "op_" + k)(S)
        return self.ops
    def pick(self, d): return self.r.choice(sorted(d)) if d else None
    def op_d(self, S):
        r = self.r; x = self.pick(self.d)
        if x is None or r.random() < .05:
            x = r.choice(S); self.op(r.choice(["d.new", "d.sub"]), x); self.d[x] = 1; return
        k = r.randint(0, 23); ph = r.choice(["phi", "phi", "phi", "psi", "mu", "nope"])
        if k == 0: self.op("d.parse", x, self.spec())
        elif k == 1: self.op("d.parsefile", x, "spec.stl", self.spec()) if r.random() < .9 else self.op("d.parsefile", x, "missing.stl")
        elif k in (2, 3):
            self.t[x] = self.t.get(x, 0.) + r.choice([1, 1, .5, .3, 0 if r.random() < .3 else 2]); self.op("d.add", x, " ".join(h(v) for v in [self.t[x]] + [self.val() for _ in range(self.width())]))
        elif k == 4: self.op("d.data=", x, self.rowsof(r.randint(0, 8), 2)); self.t[x] = 20.
        elif k == 5: self.op(r.choice(["d.data", "d.datamut"]), x)
        elif k == 6: self.op(r.choice(["d.names", "d.disp", "d.print"]), x)
        elif k == 7: self.op("d.sem=", x, r.choice(["SPACE", "LEFT_TIME", "RIGHT_TIME", "BOOLEAN", "space"])); self.op("d.sem", x)
        elif k == 8: self.op("d.interp=", x, r.choice(["LINEAR", "PREVIOUS", "PREVIOUS", "NEXT"])); self.op("d.interp", x)
        elif k in (9, 10): self.op("d.rob0", x)
        elif k in (11, 12): self.op(r.choice(["d.rob1", "d.rob1k"]), x, ph)
        elif k in (13, 14): self.op(r.choice(["d.rob2", "d.rob2k"]), x, ph, h(self.tim()))
        elif k == 15: self.op("d.robt", x, h(self.tim()))
        elif k == 16: self.op("d.param=", x, r.choice("ppbq"), h(abs(self.val())))
        elif k == 17: self.op("d.param", x, r.choice("ppbq"))
        elif k in (18, 19): y = r.choice(S); self.op("d.mon", x, ph, y); self.m[y] = 1; self.t["m" + y] = self.t.get(x, 0.)
        elif k == 20: y = r.choice(S); self.op("d.copy", y, x, r.randint(0, 2)); self.d[y] = 1; self.t[y] = self.t.get(x, 0.)
        elif k == 21: self.op("d.del", x); del self.d[x]
        elif k == 22: self.op("gc") if r.random() < .5 else self.op("d.del2", x)
        else: self.op("d.rob0", x)
    def op_m(self, S):
        r = self.r; x = self.pick(self.m)
        if x is None:
            if self.d: y = r.choice(S); self.op("d.mon", self.pick(self.d), r.choice(["phi", "psi"]), y); self.m[y] = 1
            else: self.op_d(S)
            return
        k = r.randint(0, 24)
        if k == 0: y = r.choice(S); self.op(r.choice(["m.new", "m.sub"]), y); self.m[y] = 1
        elif k in (1, 2): 
            z = "m" + x; self.t[z] = self.t.get(z, 0.) + r.choice([1, 1, .5, .3, 0 if r.random() < .3 else 2]); self.op("m.add", x, " ".join(h(v) for v in [self.t[z]] + [self.val() for _ in range(self.width())]))
        elif k == 3: self.op("m.repr", x)
        elif k == 4: self.op("m.low", x); self.op("m.up", x)
        elif k == 5: self.op("m.sem=", x, r.choice(["SPACE", "LEFT_TIME", "RIGHT_TIME", "x"])); self.op("m.sem", x)
        elif k == 6: self.op("m.interp=", x, r.choice(["LINEAR", "PREVIOUS", "y"])); self.op("m.interp", x)
        elif k in (7, 8): self.op("m.eval0", x)
        elif k in (9, 10): self.op("m.eval1", x, h(self.tim()))
        elif k in (11, 12):
            s = self.tim(); self.op("m.eval2", x, h(s), h(s + abs(self.tim())) if r.random() < .95 else h(s - 1))
        elif k == 13: s = self.tim(); self.op("m.time=", x, h(s), h(s + abs(self.tim())))
        elif k == 14: self.op("m.param=", x, r.choice("ppbq"), h(abs(self.val())))
        elif k == 15: self.op("m.param", x, r.choice("ppbq"))
        elif k in (16, 17): y = r.choice(S); self.op("m.signal", x, y); self.g[y] = 1; self.op("s.list", y)
        elif k == 18: self.op("m.disp", x)
        elif k == 19: self.op("m.get", x, r.choice(["rob", "lower_rob", "upper_rob", "start_time", "end_time"]))
        elif k == 20: self.op("m.set", x, r.choice(["rob", "lower_rob", "upper_rob", "start_time", "end_time"]), h(self.val()))
        elif k == 21: self.op(r.choice(["m.data", "m.datamut"]), x)
        elif k == 22: self.op("m.data=", x, self.rowsof(r.randint(0, 8), 2)); self.t["m" + x] = 20.
        elif k == 23: y = r.choice(S); self.op("m.copy", y, x, r.randint(0, 2)); self.m[y] = 1; self.t["m" + y] = self.t.get("m" + x, 0.)
        else:
            if r.random() < .6: self.op("m.del", x); del self.m[x]
            else: self.op("m.del2", x)
    def op_s(self, S):
        r = self.r; x = self.pick(self.g)
        ok = sorted(k for k in self.g if self.g[k] == 1)
        if x is None or r.random() < .15:
            x = r.choice(S); self.op(r.choice(["s.new", "s.new", "s.sub"]), x); self.g[x] = 1; t = self.tim()
            for i in range(r.randint(0, 5)):
                self.op("s.app2", x, h(t), h(self.val())) if r.random() < .7 else self.op("s.app3", x, h(t), h(self.val()), h(self.val()))
                t += r.choice([1, .5, .3, 0 if r.random() < .3 else 2])
            return
        k = r.randint(0, 10)
        if k == 0: y = r.choice(S); self.op("s.copy", y, x, r.randint(0, 2)); self.g[y] = self.g[x]
        elif k == 1: self.op("s.begin", x); self.op("s.end", x)
        elif k == 2: self.op(r.choice(["s.begin=", "s.end="]), x, h(self.tim())); self.g[x] = 2
        elif k in (3, 4): self.op(r.choice(["s.list", "s.listmut"]), x)
        elif k == 5: self.op("s.del", x); del self.g[x]
        elif ok:
            y = r.choice("ef"); o = r.choice(["not", "and", "or", "bool", "left", "right"])
            self.op("s.new", y); self.op("s." + o, y, r.choice(ok), *([r.choice(ok)] if o in ("and", "or") else [])); self.op("s.list", y); self.op("s.begin", y); self.op("s.end", y)
    def op_S(self, S):
        r = self.r; k = r.randint(0, 5)
        if k == 0: self.op("S.sem=", r.choice(["SPACE", "LEFT_TIME", "RIGHT_TIME", "?"])); self.op("S.sem")
        elif k == 1: self.op("S.interp=", r.choice(["LINEAR", "PREVIOUS", "?"])); self.op("S.interp")
        elif k == 2: self.op("S.big=", h(r.choice([1000, 1234.5, 10000, 1e6])))
        elif k == 3: self.op("S.big")
        elif k == 4: self.op("S.sem"); self.op("S.interp")
        else: self.op("bad", r.randint(0, 63)) if r.random() < .7 else self.op("rand", r.randint(0, 6), r.randint(0, 4))
    def op_p(self, S):
        r = self.r; x = self.pick(self.p)
        if x is None or r.random() < .2: x = r.choice(S); self.op("p.new", x, h(self.tim()), h(self.val()), h(self.val())); self.p.add(x)
        k = r.randint(0, 5)
        if k == 0: self.op("p.at", x, h(self.tim()))
        elif k == 1: self.op("p.cross", x, self.pick(self.p))
        elif k == 2: self.op("p.print", x)
        elif k == 3: self.op("p.get", x, r.choice(["time", "value", "derivative"]))
        elif k == 4: self.op("p.set", x, r.choice(["time", "value", "derivative"]), h(self.val()))
        else: y = r.choice(S); self.op("p.copy", y, x, r.randint(0, 2)); self.p.add(y)
    def op_q(self, S):
        r = self.r; x = self.pick(self.q)
        if x is None or r.random() < .2: x = r.choice(S); self.op("q.new", x, h(self.tim()), h(self.val())); self.q.add(x)
        k = r.randint(0, 3)
        if k == 0: self.op("q.print", x)
        elif k == 1: self.op("q.get", x, r.choice(["time", "value"]))
        elif k == 2: self.op("q.set", x, r.choice(["time", "value"]), h(self.val()))
        else: y = r.choice(S); self.op("q.copy", y, x, r.randint(0, 3)); self.q.add(y)
    def op_g(self, S): self.op("gc")

def make(seed, i):
    r = random.Random("%s/%s" % (seed, i)); return Gen(r).run(r.randint(4, 45))

# ---------------------------------------------------------------- execution
def esc(s): return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
ENV = None
def env():
    global ENV
    if ENV is None:
        so = lambda n: subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        ENV = dict(os.environ, LD_PRELOAD=so("libasan.so") + ":" + so("libstdc++.so"), PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        ENV.pop("PYTHONPATH", None)
    return ENV
def execute(mod, ops, cases, tmp):
    """None when both agree, else (index of the case, index of the line in it, message)"""
    t = tempfile.mkdtemp(dir=tmp)
    try:
        lines = []; where = []
        for i, c in enumerate(cases):
            lines.append("CASE"); where.append((i, -1))
            for j, o in enumerate(c): lines.append("\t".join(esc(x) for x in o)); where.append((i, j))
        open(t + "/in", "w", newline="\n", encoding="utf-8").write("".join(l + "\n" for l in lines))
        os.mkdir(t + "/c"); os.mkdir(t + "/p")
        lim = 60 + len(cases) // 5
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
        class Late: returncode = -1; stderr = "no end after %d s" % lim
        try: c = subprocess.run([ops, t + "/in", t + "/c/out"], cwd=t + "/c", env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=lim)
        except subprocess.TimeoutExpired: c = Late
        co = open(t + "/c/out", newline="\n", encoding="utf-8", errors="replace").read().split("\n")[:-1] if os.path.exists(t + "/c/out") else []
        try:
            p = subprocess.run([PY, HERE + "/c16exec.py", mod, t + "/in", t + "/p/out"], cwd=t + "/p", env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=lim)
            rc, perr = p.returncode, p.stderr
        except subprocess.TimeoutExpired: rc, perr = -1, "no end after %d s" % lim
        po = open(t + "/p/out", newline="\n", encoding="utf-8", errors="replace").read().split("\n")[:-1] if os.path.exists(t + "/p/out") else []
        for k, l in enumerate(lines):
            if k >= len(co): return where[k] + ("the C++ program stopped in: %s\n%s" % (l, c.stderr[-2500:]),)
            if k >= len(po): return where[k] + ("Python stopped (exit %s) in: %s\n%s" % (rc, l, perr[-2500:]),)
            if co[k] != po[k]: return where[k] + ("operation: %s\n  C++   : %s\n  Python: %s" % (l, co[k], po[k]),)
        if c.returncode: return (len(cases) - 1, 0, "the C++ program ended with %d: %s" % (c.returncode, c.stderr[-1500:]))
        if rc or len(po) <= len(lines) or po[len(lines)] != "END": return (len(cases) - 1, len(cases[-1]), "Python failed at its end (exit %s)\n%s" % (rc, perr[-2500:]))
        return None
    finally: shutil.rmtree(t, ignore_errors=True)

def shrink(mod, ops, case, tmp):
    def bad(c):
        r = execute(mod, ops, [c], tmp)
        return r
    best = bad(case)
    if not best: return None, None
    t0 = time.time(); n = max(1, len(case) // 2)
    while n and time.time() - t0 < 60:
        i = 0; any_ = False
        while i < len(case) and time.time() - t0 < 60:
            c = case[:i] + case[i + n:]; r = bad(c) if c else None
            if r: case, best, any_ = c, r, True
            else: i += n
        if not any_ or n > 1: n = n // 2 if n > 1 else (1 if any_ else 0)
    return case, best

def step(c):
    t0 = time.time(); mod, ops = build()
    total = c.get("cases") or (12000 if c["tier"] == "quick" else 120000)
    per = 250; jobs = [range(i, min(i + per, total)) for i in range(0, total, per)]
    res = {"name": "python-differential", "status": "pass", "cases": 0, "distinct": 0, "comparisons": 0, "discards": 0, "labels": {}, "samples": [],
           "rule": "random histories of calls made in Python and in C++; non-trivial: an evaluation and at least two objects"}
    seen = set(); stop = []
    def one(rg):
        if stop: return None
        cases = [make(c["seed"], i) for i in rg]; out = {"n": 0, "cmp": 0, "lab": {}, "h": set(), "s": None, "v": None}
        left = cases
        while left:
            r = execute(mod, ops, left, c["tmp"])
            done = left if r is None else left[:r[0]]
            for k in done:
                out["n"] += 1; out["cmp"] += len(k)
                ev = sum(o[0] in ("d.rob0", "d.rob1", "d.rob1k", "d.rob2", "d.rob2k", "d.robt", "m.eval0", "m.eval1", "m.eval2") for o in k)
                ob = sum(o[0] in ("d.new", "d.sub", "d.copy", "d.mon", "m.new", "m.sub", "m.copy", "m.signal", "s.new", "s.copy") for o in k)
                if ev and ob > 1: out["h"].add(hashlib.md5(repr(k).encode()).hexdigest()); out["s"] = out["s"] or k
                for o in {x[0] for x in k}: out["lab"][o] = out["lab"].get(o, 0) + 1
            if r is None: break
            out["v"] = (left[:r[0] + 1], r); stop.append(1); break
        return out
    viol = None
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, jobs):
            if o is None: continue
            res["cases"] += o["n"]; res["comparisons"] += o["cmp"]; seen |= o["h"]
            for k, v in o["lab"].items(): res["labels"][k] = res["labels"].get(k, 0) + v
            if o["s"] and len(res["samples"]) < 3: res["samples"].append(" ; ".join("\t".join(esc(y) for y in x) for x in o["s"])[:1500])
            if o["v"] and not viol: viol = o["v"]
    res["distinct"] = len(seen)
    if viol:
        case, r = shrink(mod, ops, viol[0][-1], c["tmp"])
        if case is None: cases, r = viol  # needs the cases before it
        else: cases = [case]
        path = os.path.join(c["rdir"], "C16-%s.json" % hashlib.md5(repr(cases).encode()).hexdigest()[:10])
        json.dump(cases, open(path, "w"), indent=0)
        res.update(status="violation", replay=path, message="Python and C++ differ\n%s\nhistory:\n%s" % (r[2], "\n".join("\t".join(esc(y) for y in x) for x in cases[-1])))
    res["search_s"] = round(time.time() - t0, 1)
    return res

if __name__ == "__main__":  # c16.py replay FILE
    m, o = build(); t = tempfile.mkdtemp()
    r = execute(m, o, json.load(open(sys.argv[2])), t); shutil.rmtree(t, ignore_errors=True)
    print(r[2] if r else "agrees"); sys.exit(1 if r else 0)
