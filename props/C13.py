import json
import math

from core import Component

BUILD = "lib"
MAXVAL = 200
LN = "<<%s>>" % ", ".join(str(round(1e6 * math.log(i))) for i in range(1, MAXVAL + 1))
GRIDS = "{<<1, 2, 4, 8>>, <<16, 24, 36, 54>>, <<10, 12, 14>>, <<8, 4, 2>>, <<5>>, <<3, 1, 2, 4>>}"
MORE = "{<<1, 2, 4, 8, 16>>, <<16, 24, 36, 54, 81>>, <<10, 12, 14, 16, 19>>, <<8, 4, 2, 1>>, <<4, 4>>, <<5>>, <<3, 1, 2, 4, 8>>, <<6, 12, 4, 8>>}"


def known(ops, expected, observed):
    expected = json.loads(expected)
    if expected.get("sus") and observed.get("sorted") is False and \
            {k: v for k, v in observed.items() if k != "sorted"} == {"ret": "ok", "v": expected["v"]}:
        return "C13-extract-unsorted"


G = [[1, 2, 4, 8, 16], [16, 24, 36, 54, 81], [10, 12, 14, 16, 19], [8, 4, 2, 1], [4, 4], [5],
     [3, 1, 2, 4, 8], [6, 12, 4, 8], [2, 4, 8, 9], [9, 2, 4, 8]]


def transforms(g):
    n = len(g)
    for i in range(n):
        for j in range(i, n):
            yield {"a": "extract", "s": 2, "t": 1, "i": i, "j": j}
            yield {"a": "extract", "s": 1, "t": 1, "i": i, "j": j}
    for m in range(2 ** n):
        yield {"a": "mask", "s": 2, "t": 1, "m": [m >> i & 1 for i in range(n)]}
    for k in range(n + 2):
        yield {"a": "resize", "s": 1, "n": k}
    for i in range(n):
        for x in (3, 8, 40):
            yield {"a": "poke", "s": 1, "i": i, "x": x}
            yield {"a": "vec", "s": 1, "i": i, "x": x}
    for k in (0, 4, 90) + tuple(k for k in (-3, -9, -1) if min(g) + k > 0):
        yield {"a": "offset", "s": 1, "k": k}
    for k in (2, -1):
        yield {"a": "mul", "s": 1, "k": k}
    yield {"a": "div", "s": 1, "k": -1}
    for k in (0, 2, -1):
        yield {"a": "shift", "s": 2, "t": 1, "k": k, "fwd": True}
    for how in ("assign", "ctor", "move"):
        yield {"a": "copy", "s": 2, "t": 1, "how": how}
    yield {"a": "new", "s": 1, "v": [2, 4, 8]}
    yield {"a": "clear", "s": 1}


def primed(rng, tier):
    """Every fact asked, one change, every fact asked again."""
    out = []
    for g in G:
        ts = list(transforms(g))
        for t in ts:
            for prime in ([], ["sorted"], ["log"], ["sorted", "log"]):
                s = t["s"]
                first = [{"a": q, "s": 1} for q in prime]
                again = [{"a": q, "s": s} for q in ("sorted", "log")]
                rng.shuffle(again)
                h = [{"a": "new", "s": 1, "v": g}] + first + [t] + again
                if t["a"] != "clear" and t["a"] != "resize" and rng.random() < 0.3:
                    h += [{"a": "mul", "s": s, "k": -1}, {"a": "sorted", "s": s}, {"a": "log", "s": s}]
                if s == 2:
                    h += [{"a": "poke", "s": 1, "i": 0, "x": 7}, {"a": "sorted", "s": 1}, {"a": "log", "s": 1}, {"a": "sorted", "s": 2}]
                out.append(h)
    return out


COMPONENTS = [
    Component("axis", "SpectralAxis", "spectralaxis.cpp", known=known,
              consts={"Slots": "{1, 2}", "Grids": "{<<>>}", "MaxVal": str(MAXVAL), "LnTable": LN},
              mc={"Slots": "{1, 2}", "Grids": GRIDS, "MaxVal": str(MAXVAL), "LnTable": LN},
              histories=primed, maxlen=(3, 4), max_edges=(40000, 400000),
              sim={"Slots": "{1, 2}", "Grids": MORE, "MaxVal": str(MAXVAL), "LnTable": LN},
              num_sim=(1200, 12000), sim_len=(12, 20)),
]
