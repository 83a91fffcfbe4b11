from core import Component

BUILD = "lib"


def rebins(rng, tier):
    out = []
    for _ in range(5000 if tier == "quick" else 120000):
        h = []
        n = 0
        cont = dust = False
        top = 8

        def xs():
            n3 = n
            x = [rng.randint(0, 6)]
            for _ in range(n3 - 1):
                x.append(x[-1] + rng.choice([1, 2, 4, 8, 16, 16]))
            return x

        def ys(x):
            k = rng.random()
            if k < .35:                           # affine
                b, c = rng.choice([-2, 0, 2, 4]), rng.randint(0, 10)
                return [2 * c + b * v for v in x]
            return [2 * rng.randint(0, top) for _ in range(n)]

        def es():
            return [rng.randint(1, 8) for _ in range(n)]

        for step in range(rng.choice([2, 4, 8, 14])):
            r = rng.random()
            if step == 0 or r < .06:
                n = rng.choice([3, 3, 3, 3, 4, 5, 8])
                x = xs()
                h.append({"a": "src", "xs": x, "ys": ys(x), "es": es()})
                cont = dust = False
                scaled = False
            elif r < .14:
                h.append({"a": "flux", "ys": ys(x), "es": es()})
                cont = dust = scaled = False
            elif r < .2 and not dust:
                x = xs()
                h.append({"a": "wave", "xs": x})
            elif r < .23 and not cont:
                h.append({"a": "err", "es": es()})
            elif r < .28 and not dust and not scaled:
                h.append({"a": "scale", "k": 2})
                scaled = True
            elif r < .36 and not cont:
                h.append({"a": "dust", "k": rng.randint(0, 1)})
                dust = True
            elif r < .42 and not dust and not cont:
                h.append({"a": "cont", "ys": [2 * rng.randint(0, 5) for _ in range(n)]})
                cont = True
            elif r < .5 and cont:
                h.append({"a": "type", "t": rng.choice(["raw", "cont", "nocont"])})
            elif r < .62:
                h.append({"a": "how", "how": rng.choice(["lin", "ngp", "spline", "preComputedFineGrid", "preComputedFineGrid",
                                                         "lin" if rng.random() < .9 else "cubic"])})
            elif r < .64:
                h.append({"a": "copy"})
            else:
                a, b = x[0], x[-1]
                lo, hi = sorted([rng.randint(a, b), rng.randint(a, b)])
                if rng.random() < .5:
                    lo = a
                if rng.random() < .5:
                    hi = b
                if rng.random() < .04:
                    lo, hi = rng.choice([(a - 1, b), (a, b + 1)])
                m = rng.choice([2, 3, 5, 9])
                dom = range(a - 4, b + 6)
                q = sorted(rng.sample(dom, min(m, len(dom))))
                if rng.random() < .3:              # on samples and borders
                    q = sorted(set(q) | {rng.choice(x), lo, hi, b})
                err = rng.choice(["no", "no", "rebin", "rebinVariance"]) if not cont else "no"
                h.append({"a": "rebin", "q": q, "lo": lo, "hi": hi, "err": err})
        out.append(h)
    return out


COMPONENTS = [
    Component("rebin", "Rebin", "rebin.cpp",
              mc={"Xs": "{<<0, 4, 6>>, <<0, 8, 9>>}", "Ys": "{0, 2, 6}", "Es": "{<<1, 2, 4>>}",
                  "Tgts": "{<<0, 1, 3, 4, 5, 6, 7>>, <<2, 5, 8, 9, 11>>}", "Bounds": "{<<0, 6>>, <<1, 5>>, <<0, 7>>}"},
              tier_mc={"Ys": "{0, 2, 6, 8}", "Xs": "{<<0, 4, 6>>, <<0, 8, 9>>, <<0, 2, 10>>}"},
              num_sim=(300, 3000), sim_len=(12, 16), histories=rebins, maxlen=(5, 6), max_edges=(20000, 200000)),
]
