from fractions import Fraction as F
from core import Component

BUILD = "lib"


def match_op(rng):
    """A matching whose outcome does not hang on the rounding of a quotient."""
    while True:
        nr = rng.choice([1, 2, 2, 3, 4, 5, 6])
        rest = [[p, rng.choice([2, 2, 2, 1]), rng.choice([1, 2]), ""] for p in
                rng.sample(range(10, rng.choice([14, 20, 60]) + 2), min(nr, 6))]
        if rng.random() < .2 and len(rest) < 6:
            rest.append([rest[0][0], rng.choice([1, 2]), rng.choice([1, 2]), ""])
        if rng.random() < .5:
            for n in ("a", "b", "ha", "hb", "a"):
                if rng.random() < .6:
                    rng.choice(rest)[3] = n
        if rng.random() < .4:  # weak lines mostly
            for k, r in enumerate(rest):
                r[1], r[2] = (2, 2) if k == 0 else (r[1], 1)
        det = []
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice([1, 2, 2, 3, F(3, 2), F(5, 2), F(11, 10)])
            for r in rest:
                if rng.random() < .7:
                    det.append(int(r[0] * f) + rng.choice([0, 0, 0, 0, 1, -1]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            det.append(rng.randint(8, 150))
        rng.shuffle(det)
        det = det[:7]
        det = [[p, rng.choice([2, 2, 2, 2, 1]), rng.choice([1, 2, 2]), rng.choice([1, 2, 3])] for p in det]
        tol = rng.choice([1, 3, 10, 30, 30, 50, 110])
        zb, ze = rng.choice([(0, 500000), (-10, 500000), (0, 100000), (100000, 900000), (-10, 100010),
                             (99990, 100010), (20007, 190003)])
        bad = False
        q = [F(d[0], r[0]) for d in det for r in rest if d[0] >= r[0]]
        for i in q:
            for j in q:
                m = F(tol, 1000) * (i + j) / 2
                if abs(i - j) == m:
                    bad = True
        if bad:
            continue
        return {"a": "match", "det": det, "rest": rest, "tol": tol, "min": rng.choice([1, 1, 2, 2, 3, 4]),
                "zb": zb, "ze": ze, "ty": rng.choice([2, 2, 3, 1]), "df": rng.choice([3, 3, 2, 1]),
                "rf": rng.choice([3, 3, 3, 2, 1])}


def companion_op(rng):
    """Lines of a few names at one redshift, some of them missing, and a spectrum around them."""
    rest = [[p, 2, rng.choice([1, 1, 1, 2]), ""] for p in rng.sample(range(20, 70), rng.choice([2, 3, 4, 5]))]
    for r, n in zip(rest, rng.sample(["a", "b", "ha", "hb", "", ""], len(rest))):
        r[3] = n
    if rng.random() < .5:
        for k, r in enumerate(rest):
            r[2] = 2 if k == 0 else 1
    f = rng.choice([1, 2, 2, 3, F(3, 2), F(5, 2), F(11, 10)])
    det = [[int(r[0] * f), 2, 2, 1] for k, r in enumerate(rest) if rng.random() < (.5 if r[2] == 1 else .1)]
    return {"a": "match", "det": det, "rest": rest, "tol": rng.choice([1, 3, 7]), "min": rng.choice([1, 1, 2]),
            "zb": -10, "ze": 500000, "ty": 2, "df": 3, "rf": 3}


def solutions(o):
    """The sets of pairs found, to keep away from borders only."""
    def sel(l, f):
        return [i for i, x in enumerate(l) if o["ty"] in (3, x[1]) and f in (3, x[2])]
    D, E = sel(o["det"], o["df"]), sel(o["rest"], o["rf"])
    out = []
    for d in D:
        for r in E:
            z = F(o["det"][d][0], o["rest"][r][0])
            if z < 1:
                continue
            s = [(d, r)]
            if len(E) > 1:
                for e in D:
                    if o["det"][e][0] in [o["det"][k][0] for k, _ in s] or e == d:
                        continue
                    for t in E:
                        y = F(o["det"][e][0], o["rest"][t][0])
                        if y >= 1 and abs(y - z) <= F(o["tol"], 1000) * (y + z) / 2:
                            s.append((e, t))
                            break
            q = [F(o["det"][a][0], o["rest"][b][0]) for a, b in s]
            out.append((s, sum(q) / len(q), len(set(q)) == 1 and q[0] in (1, 2)))
    return out


def histories(rng, tier):
    out = []
    while len(out) < (2500 if tier == "quick" else 60000):
        close = rng.random() < .45
        o = companion_op(rng) if close else match_op(rng)
        if close and any(abs(i - j) == F(o["tol"], 1000) * (i + j) / 2
                         for q in [[F(d[0], r[0]) for d in o["det"] for r in o["rest"]]] for i in q for j in q):
            continue
        sols = solutions(o)
        if any(not exact and abs(m - 1 - F(b, 100000)) < F(1, 5000) for _, m, exact in sols
               for b in (o["zb"], o["ze"])):
            continue
        h = [o]
        if rng.random() < .8:
            h += [{"a": "best"}, {"a": "most"}, {"a": "over", "n": rng.choice([0, 1, 2, 3])}]
        for _ in range(rng.choice([0, 1, 1, 2])):
            lb = rng.randint(5, 40)
            le = lb + rng.choice([20, 50, 100, 200])
            if close and o["det"]:
                lam = [d[0] for d in o["det"]] + [r[0] * o["det"][0][0] // o["rest"][0][0] for r in o["rest"]]
                lb = max(5, min(lam) - rng.choice([0, 3, 20, 50]))
                le = max(lam) + rng.choice([0, 3, 20, 50])
                if rng.random() < .2:
                    lb, le = sorted(rng.sample(range(lb, le + 2), 2))
            top = 2 * le + rng.randint(-40, 40)
            w, x = [], max(0, 2 * lb - rng.randint(0, 30))
            while x <= top or len(w) < 2:
                w.append(x)
                x += rng.choice([4, 6, 6, 10])
            y = [1] * len(w)
            if rng.random() < .8:
                dens = rng.choice([.1, .4, 1])
                y = [rng.choice([1, 2, 3, rng.randint(1, 40)]) if rng.random() < dens else 1 for _ in w]
                if rng.random() < .5:  # one part noisier
                    k = rng.randrange(len(w))
                    y = [v if i < k else v * rng.choice([1, 5]) for i, v in enumerate(y)]
            win = rng.choice([1, 5, 11, 11, 31, 61])
            if close and rng.random() < .7:  # visible lines over a noise that varies along the spectrum
                win = rng.choice([11, 31, 31, 61])
                k, q = rng.randrange(len(w)), rng.choice([(1, 5), (5, 1)])
                y = [rng.randint(1, 6) * q[i > k] for i in range(len(w))]
                for d in o["det"]:
                    i = min(range(len(w)), key=lambda i: abs(w[i] - 2 * d[0]))
                    y[i] += rng.choice([10, 50, 200])
            r = {"a": "rules", "lb": lb, "le": le, "win": win, "w": w, "y": y}
            lim = [lb + r["win"], le - r["win"], lb, le]
            lim += [F(u + k * r["win"], 2) for u in w for k in (-1, 1)]
            if any(abs(x[0] * m - b) < F(1, 50) for x in o["rest"] for _, m, _ in sols for b in lim):
                continue
            h += [r, {"a": "best"}, {"a": "most"}]
        out.append(h)
    return out


COMPONENTS = [
    Component("lines", "LineMatch", "linematch.cpp",
              mc={"DetPos": "{10, 21, 30, 40, 61}", "RestPos": "{10, 20, 30}", "MaxDet": "3", "MaxRest": "3",
                  "Thresholds": "{1, 2, 3}", "Ranges": "{<<0, 100000>>, <<-10, 500000>>}"},
              tier_mc={"DetPos": "{10, 21, 30, 40, 41, 61, 80}", "RestPos": "{10, 20, 30, 40}", "MaxDet": "3",
                       "MaxRest": "4", "Thresholds": "{1, 2, 3}", "Ranges": "{<<0, 100000>>, <<-10, 500000>>}"},
              num_sim=(0, 0), histories=histories, maxlen=(4, 4), max_edges=(20000, 300000)),
]
