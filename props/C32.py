from core import Component

BUILD = "lib"
NAN = -99999999


def model(rng):
    w = rng.choice([1, 1, 1, 2])
    two = rng.random() < .35
    n = rng.choice([24, 30])
    x0 = rng.choice([10, 12])
    spectra = []
    for k in range(2 if two else 1):
        x = x0 + (rng.choice([0, 8, n - 4, n]) if k else 0)
        cut = rng.random() < .3
        spectra.append({"x0": x, "n": n, "b": x + (rng.choice([1, 3]) if cut else 0),
                        "e": x + n - 1 - (rng.choice([1, 4]) if cut else 0), "seed": rng.randint(0, 9)})
    z = rng.choice([0, 0, 1, 2])
    top = x0 + n * (2 if two else 1)
    lines = []
    for _ in range(rng.randint(1, 6)):
        pos = 2 * rng.randint(3, top // 2 + 2) if z == 0 else 2 * rng.randint(2, max(3, top // 4 + 3))
        if lines and rng.random() < .55:
            pos = max(2, lines[-1]["pos"] + 2 * rng.choice([-3, -2, -1, 1, 2, 3]))
        t = "A" if rng.random() < .3 else "E"
        lines.append({"pos": pos, "t": t, "nom": rng.choice([1, 1, 1, 2, 0]), "ns": rng.choice([2, 4, 4, 6, 6, 8]),
                      "g": 0 if rng.random() < .3 else (rng.choice([1, 1, 2]) if t == "E" else 3),
                      "v": rng.choice([0, 1, 1, 2])})
    return {"a": "model", "w": w, "comp": rng.choice(["default"] * 4 + ["perline", "types"]), "spectra": spectra,
            "lines": lines}, z


def elements(m):
    ls = m["lines"]
    if m["comp"] == "perline":
        return [[l] for l in ls]
    if m["comp"] == "types":
        return [p for p in ([l for l in ls if l["t"] == t] for t in "AE") if p]
    gs = sorted({l["g"] for l in ls} - {0})
    return [[l for l in ls if l["g"] == g] for g in gs] + [[l] for l in ls if l["g"] == 0]


def inside(m, z, k, l):
    q = m["spectra"][k]
    mu, h = l["pos"] * (2 + z) // 2, l["ns"] * m["w"] // 2
    lo, hi = max(mu - h, q["b"]), min(mu + h, q["e"])
    return lo <= hi and 100 * (q["e"] - lo) > 66 * h and 100 * (hi - q["b"]) > 66 * h


def histories(rng, tier):
    out = []
    for _ in range(700 if tier == "quick" else 14000):
        m, z = model(rng)
        el = elements(m)
        n, ns = len(el), len(m["spectra"])
        h = [m]

        def some(k=None):
            return sorted(rng.sample(range(1, n + 1), rng.randint(1, k or n)))

        def amp(i):
            a = rng.choice([1, 2, 3, 4, 8, 12, NAN, 0, -4]) if rng.random() < .8 else rng.randint(1, 40)
            return {"a": "amp", "i": i, "A": a, "S": rng.choice([1, 2, 4])}

        def cont():
            k = rng.random()
            if k < .3:
                return [{"a": "component", "c": "fromSpectrum"}]
            if k < .4:
                return [{"a": "component", "c": "noContinuum"}]
            if k < .8:
                return [{"a": "component", "c": "tplFit"},
                        {"a": "template", "alpha": rng.choice([0, 0, 1, 2]), "A": rng.choice([0, 2, 4]),
                         "poly": rng.choice([[], [], [2], [-4, 2], [-20, 2]])}] \
                    + ([{"a": "initcont"}] if rng.random() < .8 else [])
            return [rng.choice([{"a": "tospectrum"}, {"a": "initcont"}])]

        def query():
            s = rng.randint(1, ns)
            q = rng.choice(["support", "valid", "overlap", "velocity", "residual", "residual", "rms", "integral",
                            "integral", "removed", "removed", "at"])
            o = {"a": "query", "q": q, "s": s}
            if q in ("support", "residual", "rms"):
                o["elts"] = some() if rng.random() < .95 else []
                o.update(cont=rng.random() < .6, w=rng.random() < .6)
            elif q in ("valid", "velocity", "removed"):
                o["t"] = rng.choice("EA") if q == "velocity" else rng.choice(["E", "A", "all"])
            elif q == "overlap":
                o.update(i=rng.randint(1, n), excl=some() if rng.random() < .3 else [], thr=rng.choice([0, 10, 30, 45]))
            elif q == "at":
                o.update(i=rng.randint(1, n), x=m["spectra"][s - 1]["x0"] + rng.randint(0, 20))
            elif q == "integral":
                c = [(i + 1, j + 1) for i, e in enumerate(el) for j, l in enumerate(e) if inside(m, cur, s - 1, l)]
                if not c:
                    return {"a": "reinit"}
                c = sorted(rng.sample(c, rng.randint(1, min(len(c), 3))))
                o.update(elts=[x for x, _ in c], ls=[y for _, y in c], abs=rng.random() < .6)
            return o
        cur = 0
        if z and rng.random() < .9:
            h.append({"a": "z", "z": z})
            cur = z
        h += cont()
        for _ in range(rng.choice([6, 10, 14])):
            k = rng.random()
            i = rng.randint(1, n)
            if k < .2:
                h += [amp(j) for j in (range(1, n + 1) if rng.random() < .6 else [i])]
            elif k < .3:
                h.append({"a": "fit", "i": i, "l": rng.choice([0, 0, rng.randint(1, len(el[i - 1]))])})
            elif k < .34:
                cur = rng.choice([0, z, z, 1, 2])
                h.append({"a": rng.choice(["fitall", "z"]), "z": cur})
            elif k < .4:
                h += cont()
            elif k < .5:
                h.append({"a": "refresh", "t": rng.choice(["all", "all", "E", "A"])})
            elif k < .6:
                l = rng.choice([0, 0, rng.randint(1, len(el[i - 1]))])
                h.append({"a": "under", "elts": [i] if l else some(), "l": l})
            elif k < .63:
                h.append({"a": "reinit"})
            elif k < .69:
                h += [{"a": "offset", "i": j, "g": rng.choice([1, 2]), "c": rng.choice([1, 2, 3])} for j in some()]
                if rng.random() < .7:
                    h += [{"a": "offsets", "on": rng.random() < .8}, {"a": "refresh", "t": "all"}]
            else:
                h.append(query())
        out.append(h)
    return out


def L(pos, t, nom, ns, g, v=0):
    return f'[pos |-> {pos}, t |-> "{t}", nom |-> {nom}, ns |-> {ns}, g |-> {g}, v |-> {v}]'


def S(x0, n, b, e, seed):
    return f"[x0 |-> {x0}, n |-> {n}, b |-> {b}, e |-> {e}, seed |-> {seed}]"


def M(comp, lines, spectra, w=1):
    return (f'[a |-> "model", comp |-> "{comp}", w |-> {w}, lines |-> <<{", ".join(lines)}>>, '
            f'spectra |-> <<{", ".join(spectra)}>>]')


MODELS = [
    M("default", [L(14, "E", 1, 4, 1), L(18, "E", 2, 4, 1), L(20, "A", 1, 6, 0)], [S(10, 16, 10, 25, 1)]),
    M("default", [L(12, "E", 1, 4, 1), L(18, "E", 1, 6, 1), L(16, "E", 2, 2, 1)], [S(10, 16, 11, 24, 3)]),
    M("types", [L(12, "E", 1, 4, 0), L(16, "A", 1, 4, 0), L(26, "E", 1, 8, 0)], [S(10, 12, 10, 21, 2), S(18, 12, 18, 29, 5)]),
]
COMPONENTS = [
    Component("lineelts", "LineElts", "lineelts.cpp",
              mc={"Models": "{" + ", ".join(MODELS) + "}", "Amps": "{4, -4}", "Reds": "{0, 1}", "MaxOps": "4"},
              tier_mc={"Models": "{" + ", ".join(MODELS) + "}", "Amps": "{2, 4, -4}", "Reds": "{0, 1}", "MaxOps": "5"},
              num_sim=(0, 0), histories=histories, maxlen=(5, 6), max_edges=(6000, 60000)),
]
