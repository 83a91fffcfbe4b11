from core import Component

BUILD = "lib"
SMALL = {"Slots": "{1, 2}", "Waves": "{<<1, 2, 4>>, <<2, 3, 7>>, <<5, 4, 9>>}",
         "Fluxes": "{<<6, -12, 18>>, <<0, 5, 1>>}", "Wins": "{-1, 4}"}
MIX = {"Slots": "{1, 2, 3}", "Waves": "{<<1, 2, 4>>, <<2, 3, 7, 8>>, <<5, 4, 9>>}",
       "Fluxes": "{<<6, -12, 18>>, <<0, 5, 1, 7>>, <<1, 1, 1>>}", "Wins": "{-1, 4}"}
W14 = "<<%s>>" % ", ".join(str(i) for i in range(10, 24))
V14 = "<<%s>>" % ", ".join(str(2 * i) for i in range(10, 24))
F14 = "<<6, 12, -18, 30, 42, 6, 12, 24, 18, 6, 60, 36, 12, 6>>"
G14 = "<<1, 2, 3, 50, 3, 2, 1, 2, 3, 40, 3, 2, 1, 2>>"
LONG = {"Slots": "{1, 2, 3}", "Waves": "{%s, %s}" % (W14, V14), "Fluxes": "{%s, %s}" % (F14, G14), "Wins": "{4, 6}"}
NONE = {"Slots": "{1, 2, 3}", "Waves": "{<<1>>}", "Fluxes": "{<<1>>}", "Wins": "{}"}

WS = [[1, 2, 4], [2, 3, 7], [5, 6, 9]]
FS = [[6, -12, 18], [0, 5, 1], [7, 7, -2]]


def primed(w, f):
    """Ask and rebin before and after one or two changes of spectra 1 and 2."""
    n = len(w[0])
    noise = lambda k: [i + k for i in range(n)]

    def gen(rng, tier):
        def change(s, t):
            r = rng.choice([
                lambda: {"a": "type", "s": s, "x": rng.choice(["raw", "continuum", "nocontinuum"])},
                lambda: {"a": "type", "s": s, "x": rng.choice(["raw", "continuum", "nocontinuum"])},
                lambda: {"a": "method", "s": s, "x": rng.choice(["zero", "raw", "irregularSamplingMedian"])},
                lambda: {"a": "manual", "s": s, "c": [3 * i - 2 for i in range(n)]},
                lambda: {"a": "win", "s": s, "k": rng.choice([4, 6])},
                lambda: {"a": "refl", "s": s, "b": rng.random() < 0.5},
                lambda: {"a": "flux", "s": s, "f": rng.choice(f), "e": noise(5)},
                lambda: {"a": "wave", "s": s, "w": rng.choice(w)},
                lambda: {"a": "both", "s": s, "w": rng.choice(w), "f": rng.choice(f), "e": noise(6)},
                lambda: {"a": "invert", "s": s},
                lambda: {"a": "scale", "s": s, "k": 2},
                lambda: {"a": "interp", "s": s, "x": rng.choice(["lin", "ngp", "spline", "preComputedFineGrid"])},
                lambda: {"a": "init", "s": s, "smooth": 0, "m": rng.choice(["zero", "raw", "irregularSamplingMedian"]),
                         "win": rng.choice([4, 6]), "refl": rng.random() < 0.5},
                lambda: {"a": rng.choice(["name", "obs"]), "s": s, "x": rng.choice(["a", "b"])},
                lambda: {"a": rng.choice(["lsf", "phot"]), "s": s, "n": rng.randint(0, 2)},
                lambda: {"a": "copy", "s": s, "t": t, "how": rng.choice(["assign", "ctor"])},
                lambda: [{"a": "type", "s": t, "x": "raw"},
                         {"a": "rebin", "s": s, "t": t, "i": 1, "j": n, "err": "no"}],
            ])()
            return r if isinstance(r, list) else [r]

        out = []
        for _ in range(3000 if tier == "quick" else 40000):
            h = [{"a": "new", "s": s, "w": rng.choice(w), "f": rng.choice(f), "e": noise(s), "lsf": 1} for s in (1, 2)]
            for s in (1, 2):
                h.append({"a": "init", "s": s, "smooth": 0, "m": rng.choice(["zero", "raw", "irregularSamplingMedian"]),
                          "win": rng.choice([4, 6]), "refl": rng.random() < 0.5})
                h.append({"a": "interp", "s": s, "x": rng.choice(["lin", "preComputedFineGrid", "preComputedFineGrid", "spline"])})
                if rng.random() < 0.6:
                    h += change(s, 3 - s)
            for _ in range(rng.randint(2, 5)):
                s = rng.randint(1, 2)
                if rng.random() < 0.6:
                    h.append({"a": "rebin", "s": 3, "t": s, "i": rng.randint(1, 2), "j": n, "err": "no"})
                if rng.random() < 0.5:
                    h.append({"a": "ask", "s": s})
                h += change(s, 3 - s)
            for s in (1, 2):
                h.append({"a": "rebin", "s": 3, "t": s, "i": 1, "j": n, "err": "no"})
                h.append({"a": "ask", "s": s})
                h.append({"a": "shown", "s": s})
            out.append(h)
        return out
    return gen


def twice(w, f):
    """The same operation twice, with two values, everything asked in between."""
    n = len(w[0])

    def gen(rng, tier):
        out = []
        meth = ["zero", "raw", "irregularSamplingMedian"]
        for _ in range(1500 if tier == "quick" else 20000):
            op = rng.choice([
                lambda i: {"a": "method", "s": 1, "x": rng.choice(meth)},
                lambda i: {"a": "manual", "s": 1, "c": [(3 + i) * k - 2 for k in range(n)]},
                lambda i: {"a": "manual", "s": 1, "c": [(3 + i) * k - 2 for k in range(n)]},
                lambda i: {"a": "win", "s": 1, "k": (4, 6)[i]},
                lambda i: {"a": "refl", "s": 1, "b": i == 1},
                lambda i: {"a": "flux", "s": 1, "f": [36 * x for x in f[i]], "e": [i + 5] * n},
                lambda i: {"a": "invert", "s": 1},
                lambda i: {"a": "scale", "s": 1, "k": i + 2},
                lambda i: {"a": "init", "s": 1, "smooth": rng.randint(0, 1), "m": m, "win": 4, "refl": True},
                lambda i: {"a": "init", "s": 1, "smooth": 1, "m": m, "win": 4, "refl": True},
            ])
            m = rng.choice(meth)
            ask = lambda: [{"a": "rebin", "s": 3, "t": 1, "i": 1, "j": n, "err": "no"}] * (rng.random() < .8) \
                + [{"a": x, "s": 1} for x in ("ask", "shown") if rng.random() < .8]
            h = [{"a": "new", "s": 1, "w": w[0], "f": [36 * x for x in f[0]], "e": [1] * n, "lsf": 1},
                 {"a": "init", "s": 1, "smooth": 0, "m": m, "win": 4, "refl": True},
                 {"a": "interp", "s": 1, "x": rng.choice(["lin", "preComputedFineGrid", "preComputedFineGrid", "spline"])},
                 {"a": "type", "s": 1, "x": rng.choice(["raw", "continuum", "nocontinuum"])}]
            h += ask() + [op(0)]
            if rng.random() < .5:
                h.append({"a": "type", "s": 1, "x": rng.choice(["raw", "continuum", "nocontinuum"])})
            h += ask() + [op(1)] + ask() + [{"a": x, "s": 1} for x in ("ask", "shown")]
            out.append(h)
        return out
    return gen


L14 = [list(range(10, 24)), list(range(20, 48, 2))]
LF14 = [[6, 12, -18, 30, 42, 6, 12, 24, 18, 6, 60, 36, 12, 6], [1, 2, 3, 50, 3, 2, 1, 2, 3, 40, 3, 2, 1, 2]]
COMPONENTS = [
    Component("spectrum", "Spectrum", "spectrum.cpp", consts=NONE, mc=SMALL, maxlen=(3, 3),
              max_edges=(20000, 150000), histories=lambda r, t: primed(WS, FS)(r, t) + twice(WS, FS)(r, t), sim=MIX, num_sim=(600, 10000), sim_len=(14, 25)),
    Component("median", "Spectrum", "spectrum.cpp", consts=NONE, histories=lambda r, t: primed(L14, LF14)(r, t) + twice(L14, LF14)(r, t), sim=LONG,
              num_sim=(400, 8000), sim_len=(14, 25)),
]
