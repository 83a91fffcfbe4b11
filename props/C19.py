from core import Component

BUILD = "lib"
# half separations p/q such that no two positions are exactly one separation apart
SEPS = [[0, 1], [0, 1], [5, 592], [6, 503], [24, 547], [40, 483], [138, 409]]


def curve(rng, n):
    kind = rng.random()
    if kind < .4:                          # few values: plateaus and ties
        y = [rng.randint(0, rng.choice([1, 2, 3])) for _ in range(n)]
    elif kind < .55:                       # long plateaus
        y = []
        while len(y) < n:
            y += [rng.randint(-3, 3)] * rng.choice([1, 1, 2, 3, 4, 7])
        y = y[:n]
    elif kind < .7:                        # random walk
        y = [0]
        while len(y) < n:
            y.append(y[-1] + rng.choice([-2, -1, 0, 0, 1, 2]))
    elif kind < .8:
        y = sorted(rng.randint(-9, 9) for _ in range(n))
        if rng.random() < .5:
            y.reverse()
    else:
        y = [rng.randint(-40, 40) for _ in range(n)]
    if rng.random() < .1:
        for i in range(rng.randint(0, 2)):
            y[i:i + 1] = [9999] if i < n else []
        for i in range(rng.randint(0, 2)):
            y[n - 1 - i:n - i] = [9999] if i < n else []
    return y[:n]


def histories(rng, tier):
    out = []
    for _ in range(9000 if tier == "quick" else 200000):
        c = {"max": rng.choice([1, 1, 2, 3, 5, 10]), "merit": rng.choice([0, 0, -1, 1, 2, 5, 20]),
             "sep": rng.choice(SEPS), "inv": rng.random() < .3, "border": rng.random() < .7,
             "rng": [0, 0], "on": False}
        h = [{"a": "new", "c": c}]
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
            x, u = [], rng.randint(1, 70)
            for _ in range(n):
                x.append(u)
                u += rng.choice([1, 1, 1, 2, 3, 10])
            if rng.random() < .4:
                a = rng.randint(2 * x[0] - 3, 2 * x[-1] + 2)
                b = a + rng.randint(0, 2 * (x[-1] - x[0]) + 3)
                h.append({"a": "range", "v": rng.choice([[a, b], [a, b], [0, 0]])})
            if rng.random() < .2:
                h.append({"a": "max", "v": rng.choice([1, 2, 4])})
            if rng.random() < .2:
                h.append({"a": "merit", "v": rng.choice([0, -1, 1, 3, 8])})
            y = curve(rng, n)
            if rng.random() < .01:
                y = y[:-1]
            h.append({"a": "find", "x": x, "y": y, "first": rng.random() < .5})
        out.append(h)
    return out


COMPONENTS = [
    Component("peaks", "PeakSearch", "peaksearch.cpp",
              mc={"N": "6", "Top": "2", "Counts": "{1, 2}", "Merits": "{0, 1}",
                  "Seps": "{<<0, 1>>, <<10, 483>>}", "Ranges": "{<<133, 148>>, <<132, 145>>}"},
              num_sim=(0, 0), histories=histories, maxlen=(4, 4), max_edges=(12000, 200000)),
]
