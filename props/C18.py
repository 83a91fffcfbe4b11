from core import Component

BUILD = "lib"


def param(rng, lo, hi, centred, steps):
    a = rng.randint(lo, hi)
    b = a + rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 60, 200])
    return {"lo": a, "hi": b, "step": rng.choice(steps),
            "c": rng.choice([a, b, rng.randint(a, b)]) if centred else -1}


def grid(p):
    if p["c"] == -1:
        return list(range(p["lo"], p["hi"] + 1, p["step"]))
    left = list(range(p["c"], p["lo"] - 1, -p["step"]))[::-1]
    return left + list(range(p["c"], p["hi"] + 1, p["step"]))[1:]


def histories(rng, tier):
    out = []
    for _ in range(2500 if tier == "quick" else 60000):
        p = param(rng, 1, 40, rng.random() < .2, [1, 2, 3, 5, 7, 10])
        if rng.random() < .4:
            p["hi"] = p["lo"] + rng.choice([60, 120, 300])
            p["c"] = min(p["c"], p["hi"])
        log = rng.random() < .5
        g = grid(p)
        if rng.random() < .3:
            ps = [p]
            for _ in range(rng.choice([1, 1, 2, 3, 6])):
                q = param(rng, max(1, p["lo"] - 20), p["hi"] + 10, True, [1, 1, 2, 3, 5, 8])
                ps.append(q)
            out.append([{"a": "list", "ps": ps, "log": log}])
            continue
        h = [{"a": "grid", "p": p, "log": log}]
        if rng.random() < .5:
            for _ in range(rng.choice([1, 2, 4])):
                h.append({"a": "insert", "p": param(rng, max(1, p["lo"] - 20), p["hi"] + 10, True,
                                                    [1, 1, 2, 3, 5, 8])})
        else:
            zs = [rng.randint(1, len(g)) for _ in range(rng.choice([1, 2, 2, 3, 5]))]
            if rng.random() < .5:
                zs = sorted(zs)
            h.append({"a": "pass", "zs": zs, "half": rng.choice([2, 3, 5, 10, 25, 80]),
                      "step": rng.choice([1, 1, 2, 3])})
        out.append(h)
    return out


COMPONENTS = [
    Component("grid", "ZGrid", "zgrid.cpp",
              mc={"Los": "{2, 4}", "Lens": "{0, 3, 6}", "Steps": "{1, 2, 3}", "MaxIns": "2"},
              num_sim=(0, 0), histories=histories, maxlen=(3, 3), max_edges=(20000, 300000)),
]
