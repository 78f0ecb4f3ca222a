#!/usr/bin/env python3
"""mutate.py N SEED [files...]: random small mutants of the library, run against all harness properties with few cases;
prints the survivors (development aid; works in scratch copies)."""
import os, random, re, shutil, subprocess, sys, tempfile, json, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(sys.argv[1]); SEED = sys.argv[2]; FILES = sys.argv[3:] or ["src/robustness.cpp", "src/signal.cpp", "src/transducer.cpp", "src/interval_transducer.cpp", "src/update_transducer.cpp", "src/stl_atom.cpp", "src/signal_expr.cpp", "src/stl_driver.cpp", "src/stl_monitor.cpp", "src/tools.cpp", "src/interval.cpp", "include/signal.h", "include/signal_expr.h", "include/stl_driver.h", "include/stl_monitor.h", "include/transducer.h", "include/tools.h"]
PROPS = [("C01", 6000), ("C07", 10000), ("C02", 5000), ("C05", 5000), ("C06", 5000), ("C09", 2500), ("C10", 2500), ("C12", 3000), ("C13", 4000), ("C08", 4000), ("C04", 8000), ("C11", 2500), ("C14", 3000), ("C15", 1500), ("C17", 1200), ("C18", 5000), ("C19", 5000), ("C20", 1200), ("C21", 6000), ("C03", 5000), ("C22", 3000)]
SW = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=])", "<="), (r"(?<![\->])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "),
      (r"(?<![\w.+])\+(?![+=])", "-"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"begin\b", "end"), (r"\bend\b", "begin"), (r"_low\b", "_up"), (r"_up\b", "_low"),
      (r"childL", "childR"), (r"childR", "childL"), (r"beginTime", "endTime"), (r"endTime", "beginTime"), (r"start_time", "end_time"), (r"end_time", "start_time"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
      (r"\b0\.?(?![\dx.])", "1"), (r"\b1\.?(?![\d.])", "0"), (r"\+\+", "--"), (r"lower", "upper"), (r"upper", "lower"), (r"\.value\b", ".time"), (r"\.derivative\b", ".value"), (r"BOTTOM", "TOP"), (r"TOP", "BOTTOM"), (r"\*", "/"), (r"/(?![/*])", "*"),
      (r"if ?\(", "if(!("), (r"push_back", "push_front"), (r"y1", "y2"), (r"y2", "y1"), (r"z_low", "z"), (r"z_up", "z"), (r"LINEAR", "PREVIOUS"), (r"LEFT_TIME", "RIGHT_TIME"), (r"SPACE", "LEFT_TIME")]
if os.environ.get("SW"): SW = [tuple(x.split("=>")) for x in os.environ["SW"].split(",")]
EXCL = [(x.split(':')[0], *map(int, x.split(':')[1].split('-'))) for x in os.environ.get('EXCL', '').split(',') if x]
STATIC = "([]{static int n_=0; return ++n_%61==0;}())"
GUARDS = {"src/signal.cpp": ["size()>25", "endTime>400", "beginTime<0", "size()==2"], "src/robustness.cpp": ["size()>25", "endTime>400", "beginTime<0"],
  "src/transducer.cpp": ["start_time>400", "start_time<0", "end_time>start_time+6", "trace_data_ptr->size()>40", "trace_data_ptr->back().size()>5", "trace_data_ptr->size()==2"],
  "src/interval_transducer.cpp": ["start_time>400", "start_time<0", "end_time>start_time+6", "trace_data_ptr->size()>40", "trace_data_ptr->back().size()>5", "trace_data_ptr->size()==2"],
  "src/stl_atom.cpp": ["start_time>400", "start_time<0", "end_time>start_time+6", "trace_data_ptr->size()>40", "trace_data_ptr->back().size()>5", "trace_data_ptr->size()==2"],
  "src/signal_expr.cpp": ["trace_data_ptr->size()>40", "trace_data_ptr->back().size()>5"],
  "src/stl_driver.cpp": ["data.size()>40", "formula_map.size()>2", "param_map.size()>3", "signal_map.size()>4"], "src/stl_monitor.cpp": ["data.size()>40"]}
def guarded(r, f, i, l, new):
    g = r.choice((GUARDS.get(f, []) if f != 'src/robustness.cpp' or i < 684 else ['z->size()>10', 'z->endTime>400', 'z->beginTime<0']) * 2 + [STATIC])
    m = re.match(r"^(\s*(?:\}\s*else\s+)?(?:if|while)\s*)\((.*)\)(\s*\{?\s*)$", re.sub(r"//.*", "", l)); n = re.match(r"^(\s*(?:\}\s*else\s+)?(?:if|while)\s*)\((.*)\)(\s*\{?\s*)$", re.sub(r"//.*", "", new))
    if m and n: return "%s((%s) ? (%s) : (%s))%s" % (m.group(1), g, n.group(2), m.group(2), m.group(3))
    c = re.sub(r"//.*", "", l).strip()
    if c.endswith(";") and c.count(";") == 1 and not re.match(r"(return\b.*\b(map|list)|const|double|int|auto|Signal|string|bool|virtual|friend|typedef|class|case|for|if|else|while)\b", c): return "if (%s) { %s } else { %s }" % (g, new.strip(), c)
    return None
def mutants():
    r = random.Random(SEED); out = []; seen = set()
    L = []
    for f in FILES:
        s = open("/tmp/mutrepo/" + f, newline="", errors="surrogateescape").read().split("\n")
        com = False
        for i, l in enumerate(s):
            t = l.strip()
            if "/*" in t: com = "*/" not in t
            elif com: com = "*/" not in t; continue
            t = re.sub(r"//.*", "", t).strip()
            if not t or t.startswith(("#", "*", "/*", "using", "namespace", "public", "private", "inline ostream")) or "cout" in t or "cerr" in t or re.match(r"^[{};]*$", t): continue
            if any(f == a and b <= i + 1 <= c for a, b, c in EXCL): continue
            L.append((f, i, l))
    while len(out) < N:
        f, i, l = r.choice(L); code = re.sub(r"//.*", "", l)
        if r.random() < .08 and not os.environ.get('SW'):
            if not code.strip().endswith(";") or re.match(r"\s*(return|const|double|int|auto|Signal|string|bool|virtual|friend|typedef|class|case|break)\b", code) or "::" in code and "(" not in code: continue
            new = "/* deleted */;"
        else:
            c = [(a, b, m) for a, b in SW for m in re.finditer(a, code)]
            if not c or "printf" in code: continue
            a, b, m = r.choice(c)
            if a.startswith("if "):
                # negate the condition up to its matching parenthesis
                k = m.end(); d = 1
                while k < len(code) and d: d += {"(": 1, ")": -1}.get(code[k], 0); k += 1
                if d: continue
                new = code[:m.start()] + "if(!(" + code[m.end():k] + ")" + code[k:]
            else: new = code[:m.start()] + b + code[m.end():]
        if os.environ.get('GUARD'):
            new = guarded(r, f, i, l, new)
            if new is None: continue
        if (f, i, new) in seen: continue
        seen.add((f, i, new)); out.append((f, i, l, new))
    return out
def one(im):
    i, (f, ln, old, new) = im; tag = "%s:%d %s  ==>  %s" % (f, ln + 1, old.strip()[:100], new.strip()[:160])
    t = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree("/tmp/mutrepo/src", t + "/repo/src"); shutil.copytree("/tmp/mutrepo/include", t + "/repo/include")
        p = t + "/repo/" + f; s = open(p, newline="", errors="surrogateescape").read().split("\n"); s[ln] = new; open(p, "w", newline="", errors="surrogateescape").write("\n".join(s))
        b = subprocess.run(["python3", "/tmp/mutv/harness/build.py"], env=dict(os.environ, VERIF_REPO=t + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if b.returncode: return i, "nobuild", tag, ""
        exe = b.stdout.strip()
        try:
            for pr, n in PROPS:
                q = subprocess.run([exe, "run", "--prop", pr, "--seed", str(i), "--tmp", t, "--json", t + "/o.json", "--replaydir", t, "--workers", os.environ.get("W", "1"), "--cases", str(n * int(os.environ.get("MULT", "1")))], cwd=t, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if q.returncode == 1: return i, "killed", tag, pr
                if q.returncode != 0: return i, "odd%d" % q.returncode, tag, pr
        finally:
            os.unlink(exe)
        return i, "SURVIVED", tag, ""
    finally: shutil.rmtree(t, ignore_errors=True)
if __name__ == "__main__":
    if not os.path.exists("/tmp/mutrepo"): shutil.copytree("/repo", "/tmp/mutrepo", ignore=shutil.ignore_patterns("build", ".git"))
    shutil.rmtree("/tmp/mutv", ignore_errors=True); os.makedirs("/tmp/mutv/build")
    shutil.copytree(V + "/harness", "/tmp/mutv/harness")
    b = open("/tmp/mutv/harness/build.py").read().replace('".tmp"', '(".tmp%d" % os.getpid())').replace("ThreadPoolExecutor(8)", "ThreadPoolExecutor(2)"); open("/tmp/mutv/harness/build.py", "w").write(b)
    subprocess.run(["python3", "/tmp/mutv/harness/build.py"])
    with ThreadPoolExecutor(int(os.environ.get("PAR", "8"))) as ex:
        for r in ex.map(one, [m for m in enumerate(mutants()) if not os.environ.get("ONLY") or str(m[0]) in os.environ["ONLY"].split(",")]):
            print(r[0], r[1], r[3], r[2], flush=True)
