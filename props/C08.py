"""Normalisation and versions of the configuration."""
import copy

from core import Component
from props.C07 import SCENES, config

BUILD = "py"


def expressible(c):
    """make the stages agree with the methods, as schema version 1 does"""
    c = copy.deepcopy(c)
    for m in c["models"]:
        if m["lmeas"]["on"] and not m["rel"] and m["lmeas"]["asym"]:
            m["lmeas"]["on"] = False
        m["stages"] = (["redshiftSolver"] if m["rs"] else []) \
            + (["lineMeasSolver"] if m["lmeas"]["on"] else []) \
            + (["reliabilitySolver"] if m["rel"] else [])
    return c


def histories(rng, tier):
    n = 1500 if tier == "quick" else 30000
    out = []
    for _ in range(n):
        c = config(rng, rng.choice([1, 0.9, 0.6]))
        out.append([{"a": "extend", "c": c}])
        c = config(rng, rng.choice([1, 0.9, 0.6]))
        out.append([{"a": "version", "c": expressible(c), "v": 1}])
        out.append([{"a": "version", "c": c, "v": 2}])
    return out


def talks(rng, tier):
    """several results held by one caller who edits them"""
    out = []
    for _ in range(150 if tier == "quick" else 3000):
        h, n = [], 0
        for _ in range(rng.randrange(3, 12)):
            if n == 0 or rng.random() < 0.4:
                h.append({"a": "extend", "c": config(rng, 0.9)})
                n += 1
            else:
                h.append({"a": "poke", "i": rng.randrange(n) + 1, "t": rng.random() < 0.5,
                          "v": rng.randrange(1, 9)})
        out.append(h)
    return out


COMPONENTS = [
    Component("single", "Params", "params.py", mc={"Scenes": SCENES, "Acts": '{"extend"}'}, maxlen=1,
              histories=histories, pack=25, max_edges=2500),
    Component("shared", "Params", "params.py", mc={"Scenes": '{}', "Acts": '{"mini", "poke"}'}, maxlen=(3, 4),
              histories=talks, max_edges=(1500, 20000)),
]
