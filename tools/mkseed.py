"""mk(id, prop, [(file, old, new)...], needs, breaks, demo_cc=None, demo_py=None): writes /verif/seeded/<id>/."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = '''#!/bin/bash
# exit 0: the property holds in this tree; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -w -I/repo/_build/compat -I/opt/vp/cmake/include -I/repo -I/repo/_build/gen %s "$D/demo.cc" -o "$T/demo" \\
  /repo/_build/libgbdt_lib.a -lprotobuf -lgflags -lglog -lfmt -lpthread || exit 3
cd "$T" && timeout 120 ./demo "$T"
'''
PY = '''#!/bin/bash
# exit 0: the property holds in this tree; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cd "$T" && PYTHONPATH=/repo/_build:/repo PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$D/demo.py" "$T"
'''


def mk(id, prop, edits, needs, breaks, demo_cc=None, demo_py=None, flags=""):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ""
    for f in sorted({e[0] for e in edits}):
        s = open("/repo/" + f).read()
        for g, old, new in edits:
            if g == f:
                assert s.count(old) == 1, (id, f, s.count(old), old)
                s = s.replace(old, new)
        open(t + "/x", "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t + "/x"], capture_output=True, text=True)
        diff += r.stdout
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo_cc:
        open(d + "/demo.cc", "w").write(demo_cc)
        open(d + "/demo.sh", "w").write(CC % flags)
    else:
        open(d + "/demo.py", "w").write(demo_py)
        open(d + "/demo.sh", "w").write(PY)
    os.chmod(d + "/demo.sh", 0o755)
