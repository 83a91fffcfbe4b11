from core import Component

BUILD = "lib"


def histories(rng, tier):
    out = []
    for _ in range(5000 if tier == "quick" else 120000):
        top = rng.choice([4, 10, 40])
        neg = rng.choice([0, 0, 10])

        def val():
            return rng.randint(-neg, top)

        def rg():
            a, b = val(), val()
            return (min(a, b), max(a, b)) if rng.random() < .85 else (a, a)

        def vec(empty=True):
            n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if empty else rng.choice([1, 2, 3, 5, 8])
            return sorted({val() for _ in range(n)}) if n else []

        b, e = rg()
        t = rng.choice(["int", "float"])
        h = [{"a": "set", "b": b, "e": e}]
        for _ in range(rng.choice([3, 6])):
            p = rg()
            k = rng.choice(["setbegin", "setend", "info", "plus", "minus", "times", "add", "cmp", "meets",
                            "intersect", "intersect", "union", "union", "join", "join", "clamp", "spread",
                            "spread", "closed", "closed", "enclosing", "enclosing", "enclosingv", "from",
                            "index", "lower", "upper", "closer", "div"])
            o = {"a": k}
            if k == "setbegin":
                o["b"] = b + 0
                o["b"] = min(p[0], e) if rng.random() < .5 else b
                b = o["b"]
            elif k == "setend":
                o["e"] = max(p[1], b)
                e = o["e"]
            elif k in ("plus", "minus", "clamp"):
                o["v"] = val()
            elif k == "times":
                o["v"] = rng.randint(0, 4)
            elif k == "div":
                if b < 0 or (b % 2 or e % 2) and t == "float":
                    continue
                o["v"] = 2
            elif k in ("add", "cmp", "meets", "intersect", "union"):
                if rng.random() < .2:
                    p = (e, max(e, p[1]))
                o["b"], o["e"] = p
                if k == "intersect" and max(b, p[0]) <= min(e, p[1]):
                    b, e = max(b, p[0]), min(e, p[1])
                if k == "union" and max(b, p[0]) <= min(e, p[1]):
                    b, e = min(b, p[0]), max(e, p[1])
            elif k == "join":
                o["l"] = [list(rg()) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            elif k == "spread":
                o["d"], o["back"] = rng.randint(0, 5), rng.random() < .5
            elif k in ("closed", "enclosing", "enclosingv", "from"):
                v = vec()
                if rng.random() < .5:
                    v = sorted(set(v) | {b, e} | {b - rng.randint(0, 2), e + rng.randint(0, 2)})
                o["v"] = v
                if k == "enclosingv":
                    o["x"] = rng.randint(b - 1, e + 1)
                if k == "from":
                    b, e = (v[0], v[-1]) if v else (0, 0)
            elif k in ("index", "lower", "upper", "closer"):
                o["v"] = vec(False)
                o["x"] = rng.choice(o["v"]) if rng.random() < .4 else val()
            h.append(o)
        for o in h:
            o["t"] = t
        out.append(h)
    return out


COMPONENTS = [
    Component("ranges", "Ranges", "ranges.cpp", mc={"Top": "3", "VTop": "4", "Depth": "2"},
              num_sim=(0, 0), histories=histories, maxlen=(7, 7), max_edges=(25000, 200000)),
]
