from core import Component

BUILD = "lib"


def histories(rng, tier):
    out = []
    for _ in range(1200 if tier == "quick" else 30000):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
        step = rng.choice([1, 2, 2, 4])
        w, x = [], 2 * rng.randint(0, 50)
        for _ in range(n):
            w.append(x)
            x += step if rng.random() < .8 else rng.randint(1, 9)
        top = rng.choice([1, 3, 10, 1000])
        h = []
        for _ in range(3):
            y = [rng.randint(-top if rng.random() < .2 else 0, top) for _ in range(n)]
            for _ in range(rng.choice([0, 1, 2, 3])):
                i = rng.randrange(n)
                for k in range(i, min(n, i + rng.choice([1, 2, 3, 5]))):
                    y[k] += rng.choice([5, 20, 100]) * (1 if rng.random() < .9 else -1)
            h.append({"a": "detect", "w": w, "y": y, "win": rng.choice([1, 2, 3, 4, 6, 10, 20, 60]),
                      "cut": rng.choice([0, 1, 2, 3, 5, 10]), "hw": rng.choice([0, 1, 1, 2, 4]),
                      "rate": rng.choice([0, 1, 2, 3]), "off": rng.choice([0, 0, 0, 1, 5])})
        for _ in range(2):
            y = [rng.randint(0, rng.choice([3, 30, 1000])) for _ in range(n)]
            b = rng.randint(0, n - 1)
            h.append({"a": "ratio", "w": w, "y": y, "win": rng.choice([1, 2, 3, 6, 20, 60]),
                      "m": [] if rng.random() < .5 else [int(rng.random() < .7) for _ in range(n)],
                      "e": rng.choice([[], [1] * n, [rng.randint(1, 4) for _ in range(n)],
                                       [rng.choice([1, 1, 1, 20]) for _ in range(n)]]),
                      "r": [b, rng.randint(b, n - 1)] if rng.random() < .95 else rng.choice([[-1, 0], [0, n]])})
        m = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 20])
        h.append({"a": "median", "y": [rng.randint(0, rng.choice([1, 4, 30])) for _ in range(m)]})
        h.append({"a": "smooth", "y": h[0]["y"], "hw": rng.choice([0, 1, 2, 3, 5, 12])})
        out.append(h)
    for m in (999, 1000, 1001, 1002, 1301):
        for top in (1, 5, 100000):
            out.append([{"a": "median", "y": [rng.randint(0, top) for _ in range(m)]}])
    return out


COMPONENTS = [
    Component("peaks", "PeakDetect", "peakdetect.cpp",
              mc={"N": "6", "Vals": "{0, 1, 6}", "Wins": "{1, 5, 8}", "Cuts": "{0, 4}", "Rates": "{0, 1}",
                  "MedLen": "6", "MedTop": "2"},
              tier_mc={"N": "6", "Vals": "{0, 1, 6}", "Wins": "{1, 4, 5, 9}", "Cuts": "{0, 1, 4}",
                                    "Rates": "{0, 1, 2}", "MedLen": "6", "MedTop": "3"},
              num_sim=(0, 0), histories=histories, maxlen=(1, 1), max_edges=(60000, 300000)),
]
