from core import Component

BUILD = "lib"


def windows(rng, tier):
    out = []
    for _ in range(6000 if tier == "quick" else 150000):
        hi, lo = rng.choice([20, 40, 100, 300]), rng.choice([0, 0, 0, -5, -30, 4])
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 7])
        zs = rng.sample(range(lo, hi + 1), n)
        if rng.random() < .4:
            c = rng.randint(lo, hi)
            zs = list({min(hi, max(lo, c + rng.randint(-15, 15))) for _ in range(n)})
            rng.shuffle(zs)
        wide = rng.choice([1, 3, 8, 30])
        h = [{"a": "add", "c": {"z": z, "h": 3 * (rng.randint(1, wide) if rng.random() < .8 else wide),
                                "p": rng.randint(0, rng.choice([1, 3, 20]))}} for z in zs]
        if rng.random() < .2:                # the ranges of a former call in place
            h.insert(rng.randint(1, len(h)), {"a": "windows", "pdf": [lo - rng.randint(0, 5), hi + rng.randint(0, 40)]})
        h.append({"a": "windows", "pdf": [lo, hi]})
        out.append(h)
    out += [[{"a": "default", "z": z} for z in rng.sample(range(-50, 9000), 8)] for _ in range(40)]
    return out


def search(rng, tier):
    """likelihood curves over grids with refined windows"""
    out = []
    for _ in range(4000 if tier == "quick" else 100000):
        lo = rng.randint(65, 90)
        n = rng.choice([4, 8, 12, 20, 30])
        step = rng.choice([1, 1, 2, 3])
        hi = lo + n * step + rng.randint(0, step - 1)
        ticks = hi - lo + 1
        how = rng.choice(["marg"] * 6 + ["bestChi2", "bestChi2", "bestproba"])
        nm = 1 if how == "bestproba" else rng.choice([1, 1, 1, 2, 3])
        pow_ = []
        if how != "bestproba" and rng.random() < .4:
            nm, how, top = 1, "marg", rng.choice([1, 2, 4, 7])
            e = [rng.randint(0, top) for _ in range(ticks)]
            if rng.random() < .6:          # smooth bumps
                cs = [rng.randint(0, ticks) for _ in range(rng.choice([1, 2, 3, 4]))]
                wd = rng.choice([1, 3, 6, 10])
                e = [max(0, top - min(abs(k - c) for c in cs) * top // wd // 2) for k in range(ticks)]
            pow_ = e
            ws = [[2 ** x for x in e]]
        else:
            top = rng.choice([2, 5, 20, 60])
            ws = [[rng.randint(1, top) for _ in range(ticks)] for _ in range(nm)]
        mp = []
        if nm > 1 and rng.random() < .5:
            mp = [rng.choice([1, 1, 2, 4]) for _ in range(nm)]
        if nm > 1:                          # equal totals only for equal terms
            seen = {}
            for k in range(ticks):
                while True:
                    t = tuple(w[k] for w in ws)
                    f = max(t) if how == "bestChi2" else sum(a * b for a, b in zip(t, mp or [1] * nm))
                    if seen.setdefault(f, t) == t:
                        break
                    for w, v in zip(ws, seen[f]):
                        w[k] = v
        if mp and rng.random() < .05:
            mp.append(1)
        q = [rng.choice([1, 1, 3])] * ticks if rng.random() < .3 else []
        if q and nm == 1 and not pow_ and rng.random() < .7:
            a, b = rng.choice([1, 2]), rng.choice([1, 3, 4])
            k = rng.randint(0, ticks)
            cand = [a] * k + [b] * (ticks - k)
            terms = {}                      # likewise for the products with the prior
            if all(terms.setdefault(w * p, (w, p)) == (w, p) for w, p in zip(ws[0], cand)):
                q = cand
        subs = []
        if rng.random() < .5:
            for _ in range(rng.choice([1, 2, 2, 3])):
                c = lo + step * rng.randint(0, n)
                half = rng.choice([2, 4, 6])
                subs.append({"lo": max(lo, c - half), "hi": min(hi - (hi - lo) % step, c + half),
                             "step": rng.choice([1, 1, 2]), "c": c})
        if how == "bestproba":              # (the normalisation test at its limit)
            f = [ws[0][k] * (q[k] if q else 1) for k in range(0, ticks, step)]
            if 10 * (f[0] + f[-1]) == 2 * sum(f):
                continue
        pw = rng.choice([1, 1, 2, 4, 10])
        out.append([{"a": "compute", "base": {"lo": lo, "hi": hi - (hi - lo) % step, "step": step, "c": -1},
                     "subs": subs, "ws": ws, "q": q, "mp": mp, "how": how,
                     "sep": rng.choice([[0, 1], [0, 1], [5, 592], [24, 547], [40, 483]]),
                     "merit": rng.choice([0, 0, 0, 1, 3, 8]), "border": rng.random() < .8,
                     "max": rng.choice([1, 2, 3, 5, 10]), "pw": pw,
                     "pow": pow_ if not q else []}])
    return out


COMPONENTS = [
    Component("search", "PdfSearch", "pdfsearch.cpp",
              mc={"Lo": "65", "Hi": "70", "Top": "3", "Maxes": "{1, 3}", "Seps": "{<<0, 1>>, <<5, 592>>}"},
              num_sim=(0, 0), histories=search, maxlen=(1, 1), max_edges=(5000, 100000)),
    Component("windows", "PdfWindows", "pdfwindows.cpp",
              mc={"Hi": "10", "Halves": "{3, 6, 9}", "Probas": "{1, 2}", "MaxCand": "3"},
              num_sim=(0, 0), histories=windows, maxlen=(10, 10), max_edges=(15000, 150000)),
]
