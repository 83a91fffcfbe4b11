from core import Component

BUILD = "lib"
FEW = '{S(100000, 8), S(-200000, 16), S(0, 8), S(9999, 8), S(100000, 0), S(9998, 9999)}'
ALL = '{S(100000, 8), S(-200000, 16), S(0, 8), S(9999, 8), S(100000, 0), S(9998, 9999), S(-9998, -8), S(50000, 9998), S(300000, 9997)}'
N3 = {"N": "3", "Samples": FEW, "Lsfs": '{<<>>}'}


def spectra(rng, tier):
    fl = [0, 50000, 100000, -200000, 300000, 9999, 9998, -9998]
    er = [8, 16, 24, 0, -8, 9999, 9998, 9997]
    out = []
    for _ in range(1500 if tier == "quick" else 20000):
        n = rng.randint(2, 8)
        bad = rng.choice([0, 0, 0.1, 0.3, 0.6])
        sp = [{"f": rng.choice(fl[:5] if rng.random() > bad else fl), "e": rng.choice(er[:3] if rng.random() > bad else er)}
              for _ in range(n)]
        if rng.random() < 0.1:
            sp = [dict(x, f=0) for x in sp]
        lsf = rng.choice([[], [], sorted(rng.sample(range(0, 2 * n + 3), 2))])
        ops = [{"a": "new", "sp": sp, "lsf": lsf}]
        for _ in range(rng.randint(1, 3)):
            lo, hi = sorted(rng.sample(range(0, 2 * n + 4), 2))
            a = rng.choice(["validate", "validate", "flux", "noise", "correct"])
            if a == "validate":
                ops.append({"a": a, "lo": lo, "hi": hi, "correct": rng.random() < 0.5})
                continue
            # an integer border inside the spectrum: at least one sample is in the range
            lo = 2 * rng.randint(1, n) - rng.choice([0, 0, 1])
            hi = max(lo + 1, hi)
            o = {"a": a, "lo": lo, "hi": hi}
            if a == "correct":
                o["c"] = rng.choice([10, 5])
            ops.append(o)
        out.append(ops)
    return out


COMPONENTS = [
    Component("validation", "Validity", "validity.cpp", consts=N3, mc=N3, maxlen=2,
              tier_mc={"N": "3", "Samples": ALL, "Lsfs": '{<<>>, <<3, 6>>, <<2, 5>>}'},
              max_edges=(40000, 200000), histories=spectra),
]
