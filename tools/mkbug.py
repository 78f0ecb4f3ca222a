import os, json, subprocess, tempfile, shutil
def mkbug(bid, prop, edits, needs, what, py=None, cpp=None, extra=None):
    d = "/verif/seeded/" + bid; os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(dir="/tmp"); a = tmp + "/a"
    subprocess.check_call(["git", "clone", "-q", "/repo", a])
    for f, old, new in edits:
        p = a + "/" + f; s = open(p, newline="").read()
        if "\r\n" in s: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", a, "diff", "--no-color"])
    open(d + "/patch.diff", "wb").write(diff)
    shutil.rmtree(tmp)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    if py:
        open(d + "/demo.py", "w").write(py)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH=$PWD/build PYTHONDONTWRITEBYTECODE=1 timeout 120 /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
    if cpp:
        open(d + "/demo.cpp", "w").write(cpp)
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds the demonstration from the sources of the working directory, in a scratch directory of its own
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
pids=()
for f in src/*.cpp "$H/demo.cpp"; do
  g++ -std=c++11 -w -O0 -g %s -Iinclude -c "$f" -o "$T/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
g++ %s "$T"/*.o -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
''' % ((extra or "", extra or "")))
