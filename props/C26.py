from core import Component

BUILD = "lib"
BALMER = ["Halpha", "Hbeta", "Hgamma", "Hdelta", "H8", "H9", "H10", "H11"]
OTHER = ["[OII]3726", "[OII]3729", "[CIII]1907", "[CIII]1909", "[OIII]", "[NII]"]
ABS = ["HbetaA", "HgammaA", "CaK", "CaH"]
NAN = -99999999


def model(rng):
    two = rng.random() < .3
    ranges = [[4000, 6000], [5900, 8000]] if two else [[4000, 6000]]
    if two and rng.random() < .5:
        ranges.reverse()
    hi = 8000 if two else 6000
    focus = rng.choice([BALMER, OTHER, BALMER + OTHER, BALMER[:3] + OTHER])
    names = [(n, "E") for n in rng.sample(focus, rng.randint(1, min(len(focus), 6)))] + \
            [(n, "A") for n in rng.sample(ABS, rng.choice([0, 0, 1, 2, 3]))]
    rng.shuffle(names)
    comp = rng.choice(["default"] * 4 + ["perline"] * 2 + ["types"])
    lines, used = [], set()
    for n, t in names:
        while True:
            p = rng.choice([rng.randint(4050, 5950)] * 7 + [rng.randint(3000, 3970), 9000 + rng.randint(0, 300),
                           rng.randint(5985, 6010), 6020, 3980, 3990, hi + 11, hi + 17, 7000, 7500])
            if p not in used:
                used.add(p)
                break
        g = 0 if rng.random() < .6 else (rng.choice([1, 2]) if t == "E" else 3)
        lines.append({"name": n, "t": t, "f": rng.choice("SW"), "nom": rng.choice([4, 4, 4, 2, 8]), "pos": p, "g": g})
    return {"a": "model", "comp": comp, "ranges": ranges, "lines": lines}


def outside(p, ranges):
    return all(p >= r[1] + 14 or p <= r[0] - 14 for r in ranges)


def nelem(m):
    if m["comp"] == "perline":
        return len(m["lines"])
    if m["comp"] == "types":
        return len({l["t"] for l in m["lines"]})
    return len({l["g"] for l in m["lines"] if l["g"]}) + sum(l["g"] == 0 for l in m["lines"])


def histories(rng, tier):
    out = []
    for _ in range(2500 if tier == "quick" else 40000):
        m = model(rng)
        n = nelem(m)
        h = [m]
        top = rng.choice([512, 2000, 2000])

        def fit(i):
            a = rng.choice([rng.randint(1, top) * 4] * 12 + [0, -4 * rng.randint(1, 200), NAN])
            return {"a": "fit", "i": i, "amp": a, "std": NAN if a == NAN else rng.choice([4, 8, 12])}
        h += [fit(i) for i in range(1, n + 1)]
        E = [l["name"] for l in m["lines"] if l["t"] == "E"]
        A = [l["name"] for l in m["lines"] if l["t"] == "A"]
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(["weak", "two", "ratio", "apply", "apply", "fit"])
            on = rng.random() < .93
            t = "A" if A and rng.random() < .25 else "E"
            pool = (A if t == "A" else E) or ["Halpha"]
            if rng.random() < .1:
                pool = pool + ["[SII]"]
            if k == "weak":
                ops = [{"a": k, "t": t, "on": on}]
            elif k in ("two", "ratio"):
                x, y = (rng.sample(pool, 2) if len(pool) > 1 else [pool[0], pool[0]])
                ops = [{"a": k, "t": t, "x": x, "y": y, "on": on,
                        **({"c": rng.choice([385, 517, 1100])} if k == "two" else {"r": rng.choice([4, 5])})}]
            elif k == "fit":
                ops = [fit(rng.randint(1, n))]
            else:
                ops = [{"a": "rules", "names": rng.choice([["all"], ["all"], ["no"], ["balmersingle"], ["ratioRange"],
                                                           ["strongWeak"], ["balmersingle", "strongWeak"],
                                                           ["ratioRange", "balmersingle"]])}, {"a": "apply"}]
            h += ops
            if rng.random() < .3 and k != "fit":
                h.append(ops[-1])
        out.append(h)
    return out


def L(name, t, f, nom, pos, g):
    return f'[name |-> "{name}", t |-> "{t}", f |-> "{f}", nom |-> {nom}, pos |-> {pos}, g |-> {g}]'


def M(comp, lines, ranges="<<<<4000, 6000>>>>"):
    return f'[a |-> "model", comp |-> "{comp}", ranges |-> {ranges}, lines |-> <<{", ".join(lines)}>>]'


MODELS = [
    M("default", [L("Halpha", "E", "S", 4, 4500, 0), L("Hbeta", "E", "W", 2, 4600, 0), L("CaK", "A", "S", 4, 4700, 0)]),
    M("default", [L("[OII]3726", "E", "S", 8, 4500, 0), L("[OII]3729", "E", "S", 2, 4510, 1),
                  L("Halpha", "E", "W", 4, 7000, 1)]),
    M("default", [L("CaK", "A", "S", 4, 4500, 0), L("CaH", "A", "W", 2, 4600, 1), L("HbetaA", "A", "W", 8, 4700, 1)]),
    M("types", [L("Halpha", "E", "S", 4, 4500, 0), L("CaK", "A", "S", 4, 6020, 1), L("[OIII]", "E", "W", 8, 4700, 0)]),
    M("perline", [L("Halpha", "E", "S", 4, 5500, 1), L("Hbeta", "E", "W", 4, 7000, 1), L("[OIII]", "E", "W", 8, 9000, 1)],
      "<<<<4000, 6000>>, <<5900, 8000>>>>"),
]
COMPONENTS = [
    Component("linerules", "LineRules", "linerules.cpp",
              mc={"Models": "{" + ", ".join(MODELS) + "}", "Amps": "{400, 3000, -80, 0}", "Stds": "{4, 12}",
                  "MaxOps": "6"},
              num_sim=(0, 0), histories=histories, maxlen=(7, 7), max_edges=(20000, 200000)),
]
