#!/usr/bin/env python3
"""plant.py ID PROPERTY SOURCES: turns the edits in /tmp/w/repo (a scratch copy of /repo) into /verif/seeded/ID and confirms the demo.
Reads /tmp/w/plant/ID.cpp (demo, or ID.py) and /tmp/w/plant/ID.json ({needs, what_it_breaks}).  Demo runs against /repo and against the scratch copy."""
import json, os, shutil, subprocess, sys
pid, prop, srcs = sys.argv[1], sys.argv[2], sys.argv[3]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/w/repo"; D = V + "/seeded/" + pid
os.makedirs(D, exist_ok=True)
diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
assert diff, "no edit in " + S
open(D + "/patch.diff", "w").write(diff)
m = json.load(open("/tmp/w/plant/%s.json" % pid)); m["property"] = prop; json.dump(m, open(D + "/meta.json", "w"), indent=1)
if os.path.exists("/tmp/w/plant/%s.py" % pid):
    shutil.copy("/tmp/w/plant/%s.py" % pid, D + "/demo.py")
    sh = '''#!/bin/bash
# exit 0 when the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/partial:$PWD/_build/python:$PWD
exec /opt/vp/venv/bin/python "$D/demo.py"
'''
else:
    shutil.copy("/tmp/w/plant/%s.cpp" % pid, D + "/demo.cpp")
    shutil.copytree(V + "/stubs", D + "/stubs", dirs_exist_ok=True)
    sh = '''#!/bin/bash
# compiles the StochasticTree sources of the current directory with demo.cpp; exit 0 when the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"; W="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
for s in %s; do g++ -O1 -std=c++17 -w -I"$D/stubs" -Iinclude -I/usr/include/eigen3 -c src/$s.cpp -o "$W/$s.o" & done
g++ -O1 -std=c++17 -w -I"$D/stubs" -Iinclude -I/usr/include/eigen3 -c "$D/demo.cpp" -o "$W/demo.o"; wait
g++ "$W"/*.o -o "$W/demo" || { find "$W" -delete; exit 3; }
timeout 120 "$W/demo"; r=$?
find "$W" -delete
exit $r
''' % srcs.replace(",", " ")
open(D + "/demo.sh", "w").write(sh); os.chmod(D + "/demo.sh", 0o755)
a = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo").returncode
b = subprocess.run(["bash", D + "/demo.sh"], cwd=S).returncode
print("%s: demo on /repo %d, on the patched copy %d %s" % (pid, a, b, "OK" if a == 0 and b not in (0, 3) else "*** NOT OK"))
