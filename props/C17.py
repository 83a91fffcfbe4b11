from core import Component

BUILD = "lib"


def histories(rng, tier):
    """longer histories over two templates, with masks"""
    out = []
    for _ in range(1500 if tier == "quick" else 40000):
        n = [6, 6]
        h = []
        for _ in range(rng.choice([6, 12, 25])):
            t = rng.choice([1, 2])
            g = rng.choice(["no", "no", "calz", "meik", "both", "both"])
            z = rng.choice([15, 20, 25, 30, 35, 40, 55])
            k = rng.random()
            if k < .12:
                h.append({"a": "init", "t": t, "ks": rng.randint(0, 3), "ke": rng.randint(3, 6),
                          "z": z, "g": g})
                if rng.random() < .1:
                    h[-1]["ks"] = rng.choice([-1, 7])
                    h[-1]["ke"] = 7
            elif k < .2:
                h.append({"a": "full", "t": t, "z": z, "g": g})
            elif k < .28:
                lo = rng.choice([11000, 11901, 12050, 12051, 12120, 12130, 12151, 12250, 12299, 12301])
                h.append({"a": "range", "t": t, "lo": lo, "hi": lo + rng.choice([1, 60, 100, 200, 1500]),
                          "z": z, "g": g})
            elif k < .5:
                h.append({"a": "dust", "t": t, "k": rng.choice([-1, 0, 1, 1, 2, 2, 3])})
            elif k < .7:
                h.append({"a": "igm", "t": t, "k": rng.choice([-1, 0, 1, 1])})
            elif k < .76:
                h.append({"a": "amp", "t": t, "e": rng.choice([-3, -1, 1, 2, 5])})
            elif k < .79:
                h.append({"a": "off", "t": t})
            elif k < .81:
                h.append({"a": "flux", "t": t})
            elif k < .86:
                h.append({"a": rng.choice(["type", "ctype"]), "t": t,
                          "ty": rng.choice(["raw", "noContinuum"])})
            elif k < .93:
                u = rng.choice([1, 2])
                a = rng.choice(["copy", "assign", "move", "moveassign"])
                if a == "moveassign":
                    u = 3 - t
                h.append({"a": a, "t": t, "u": u})
                m = n[t - 1]
                if a.startswith("move"):
                    n[t - 1] = 6
                n[u - 1] = m
            elif k < .98:
                m = [rng.choice([0, 1, 1, 1]) for _ in range(n[t - 1])]
                if any(m):
                    h.append({"a": "mask", "t": t, "m": m})
                    n[t - 1] = sum(m)
            else:
                h.append({"a": "again", "t": t})
                n[t - 1] = 6
        out.append(h)
    return out


MC = {"Slots": "1", "NSamp": "6", "NDust": "3", "NIgm": "2", "Zs": "{15, 25, 35}",
      "Ranges": "{<<0, 5>>, <<1, 3>>, <<4, 5>>, <<5, 6>>}", "Amps": "{2}", "MaxMask": "1", "MaxAmp": "2"}
COMPONENTS = [
    Component("template", "Template", "template.cpp", mc=MC,
              sim=dict(MC, Slots="2"), num_sim=(0, 0),
              histories=histories, maxlen=(4, 6), max_edges=(20000, 300000)),
]
