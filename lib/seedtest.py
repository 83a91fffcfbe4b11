"""Try planted bugs (a tool for us, not a check): python3 lib/seedtest.py ID...
Applies each patch to /repo, builds, runs the tests, the demo and the check of
its property, then undoes it."""
import json
import os
import subprocess
import sys
V = "/verif/seeded/"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build():
    r = sh("bash /opt/vp/build.sh")
    assert r.returncode == 0, r.stdout[-3000:]


base = set(json.load(open("/opt/vp/BASELINE.json"))["stable_pass"]) if "stable_pass" in json.load(open("/opt/vp/BASELINE.json")) else None
fast = "--fast" in sys.argv
for i in [a for a in sys.argv[1:] if a[0] != "-"]:
    d = V + i + "/"
    meta = json.load(open(d + "meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    out = []
    try:
        if not fast:
            build()
            out.append("demo clean %d" % sh("bash %sdemo.sh" % d, cwd="/repo").returncode)
        a = sh("git -C /repo apply %spatch.diff" % d)
        assert a.returncode == 0, a.stdout
        if not fast:
            build()
            r = sh("bash %sdemo.sh" % d, cwd="/repo")
            out.append("demo bug %d" % r.returncode)
            sh("bash /opt/vp/test.sh /tmp/t.json")
            t = json.load(open("/tmp/t.json"))
            out.append("tests " + str({k: len(v) for k, v in t.items() if isinstance(v, list)}))
        for p in [meta["property"]] + meta.get("also", []):
            r = sh("timeout 900 python3 /verif/check.py %s" % p, env=dict(os.environ, VERIF_DEBUG="1"))
            out.append("check %s rc %d %s" % (p, r.returncode, [x[:200] for x in r.stdout.splitlines() if x.startswith("VIOL")]))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, out, flush=True)
if not fast:
    build()
