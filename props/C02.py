import importlib.util
import os

from core import Component

BUILD = "py"
_spec = importlib.util.spec_from_file_location(
    "flow_c01", os.path.join(os.path.dirname(__file__), "C01.py"))
C01 = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(C01)

CFGS = ["lmtpl", "lmlsf", "lmfft", "tf", "fft", "two", "igm", "fftz", "fftp"]
SPECS = ["base", "noisy", "short", "zero", "nan", "log1", "log2", "outside"]


def pairs(rng, tier):
    """every configuration: every ordered pair of spectra; and changes of
    configuration"""
    out = []
    for c in CFGS:
        for s in SPECS:
            for t in SPECS:
                out.append([{"a": "new", "cfg": c}, {"a": "run", "s": s},
                            {"a": "run", "s": t}])
    if tier == "quick":
        # a walk over the spectra visits each ordered pair once
        out = [walk(rng, c) for c in CFGS for _ in range(2)]
    for _ in range(40 if tier == "quick" else 1500):
        h = []
        for _ in range(rng.choice([2, 2, 3])):
            h.append({"a": "new", "cfg": rng.choice(CFGS)})
            h += [{"a": "run", "s": rng.choice(SPECS)}
                  for _ in range(rng.choice([1, 1, 2]))]
        # at most two pipelines of one configuration
        n = [o["cfg"] for o in h if o["a"] == "new"]
        if max(n.count(c) for c in n) <= 2:
            out.append(h)
    return out


def walk(rng, c):
    n = 14
    left = {(s, t) for s in SPECS for t in SPECS}
    h, cur = [], rng.choice(SPECS)
    h.append(cur)
    for _ in range(n):
        nxt = [t for (s, t) in sorted(left) if s == cur]
        cur2 = rng.choice(nxt) if nxt else rng.choice(SPECS)
        left.discard((cur, cur2))
        cur = cur2
        h.append(cur)
    return [{"a": "new", "cfg": c}] + [{"a": "run", "s": s} for s in h]


def flow_histories(rng, tier):
    n = 250 if tier == "quick" else 4000
    return [C01.history(rng, rng.choice([1, 2]), 4) for _ in range(n)]


CONSTS = {"Cfgs": "{%s}" % ", ".join('"%s"' % c for c in CFGS),
          "Specs": "{%s}" % ", ".join('"%s"' % c for c in SPECS),
          "MaxRuns": "2"}
COMPONENTS = [
    Component("spectra", "Replay", "replay.py", mc=CONSTS, histories=pairs,
              maxlen=3, max_edges=(40, None)),
    Component("flow", "ProcessFlow", "flow.py", mc=None,
              sim=dict(C01.CONSTS, MaxRuns="4", MaxNews="2"),
              histories=flow_histories),
]
