"""Helper for writing planted bugs: mk(id, property, [(file, old, new)],
needs, breaks, cpp=... or py=...) writes seeded/<id>/ from edits of /repo."""
import json
import os
import subprocess

REPO = os.environ.get("SEED_REPO", "/repo")      # a clone may stand in for either
VERIF = os.environ.get("SEED_VERIF", "/verif")
CPP = '''#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "$work"' EXIT
g++ -std=c++17 -O1 -w -I RedshiftLibrary -I RedshiftLibrary/tests/src -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$work/demo" \\
  -L _build -lcpf-redshift -Wl,-rpath,"$PWD/_build" -lpthread || exit 3
cd "$work" && timeout 120 ./demo
'''
PY = '''#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "$work"' EXIT
export PYTHONPATH="$PWD/pylibamazed/python" LD_LIBRARY_PATH="$PWD/_build" PYTHONDONTWRITEBYTECODE=1 REPO="$PWD"
cd "$work" && timeout 250 /opt/vp/venv/bin/python "$here/demo.py"
'''


def mk(id, prop, edits, needs, breaks, cpp=None, py=None, also=()):
    d = VERIF + "/seeded/%s/" % id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C %s status --porcelain" % REPO, shell=True, text=True,
                              stdout=subprocess.PIPE).stdout.strip()
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C %s diff" % REPO, shell=True, text=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run("git -C %s checkout -- ." % REPO, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(d + "patch.diff", "w").write(diff)
    open(d + "demo.sh", "w").write(CPP if cpp else PY)
    os.chmod(d + "demo.sh", 0o755)
    if cpp:
        open(d + "demo.cpp", "w").write(cpp)
    if py:
        open(d + "demo.py", "w").write(py)
    m = {"property": prop, "needs": needs, "what_it_breaks": breaks}
    if also:
        m["also"] = list(also)
    json.dump(m, open(d + "meta.json", "w"), indent=1)
