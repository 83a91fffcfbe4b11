from core import Component

BUILD = "py"
D = '[name |-> "%s", pos |-> %d, type |-> "%s", force |-> "%s", prof |-> "%s", grp |-> "%s", vg |-> "%s", off |-> %d, fit |-> %s, sid |-> "%s"]'
DEFS = "{%s}" % ", ".join([
    D % ("LyAE", 1216, "E", "S", "ASYMFIT", "undefined", "em", 0, "FALSE", "s1"),
    D % ("Ha", 6564, "Em", "Strong", "SYM", "g1", "em", 3, "TRUE", "s2"),
    D % ("CaK", 3934, "A", "W", "SYM", "g1", "abs", 0, "FALSE", "s3"),
    D % ("NV", 1000, "E", "W", "ASYM", "g2", "em", -2, "TRUE", "s4"),
    D % ("z", 1000, "X", "W", "ASYM", "g2", "em", -2, "TRUE", "s4")])
NONE = {"Defs": "{}", "IdSet": "{}", "Amps": "{}", "AsymSet": "{}", "MaxRat": "0", "MaxStored": "0"}


def random_catalogues(rng, tier):
    out = []
    for _ in range(800 if tier == "quick" else 20000):
        h, nr, ns = [], 0, 0
        pool = [rng.choice([1, 2, 3, 5, 8, -4, 100]) for _ in range(3)]
        for _ in range(rng.randint(3, 14)):
            t = rng.randint(0, nr)
            asym = [rng.choice([2, 4, 3, 8]), rng.randint(-3, 9), rng.randint(0, 3)]
            k = rng.random()
            if k < 0.45:
                bad = rng.random()
                d = {"name": rng.choice(["LyAE", "Ha", "x", ""]), "pos": rng.choice([1000, 1215, 1216, 1217, 5007]),
                     "type": rng.choice(["E", "Em", "A", "Abs", "E", "no"] + (["X"] if bad < 0.1 else [])),
                     "force": rng.choice(["S", "Strong", "W", "Weak", "no"] + (["Q"] if bad > 0.9 else [])),
                     "prof": rng.choice(["SYM", "LOR", "ASYM", "ASYMFIT", "SYMIGM", "ASYMFIXED", "myASYMFIXED2"]
                                        + (["sym"] if 0.4 < bad < 0.5 else [])),
                     "grp": rng.choice(["undefined", "undefined", "g1", "g2", ""]),
                     "vg": rng.choice(["em_vel", "abs_vel"]), "off": rng.randint(-3, 3), "fit": rng.random() < 0.5,
                     "sid": rng.choice(["s1", "s2", "s3"])}
                h.append({"a": "add", "t": t if rng.random() < 0.2 else 0, "id": rng.choice(pool), "d": d,
                          "asym": asym, "amp": rng.randint(0, 9)})
            elif k < 0.57:
                h.append({"a": "amp", "t": t, "id": rng.choice(pool), "x": rng.randint(0, 9)})
            elif k < 0.65:
                h.append({"a": "asym", "t": t, "asym": asym,
                          "p": rng.choice(["ASYM", "ASYMFIT", "ASYMFIXED", "SYM", "LOR", "SYMIGM", "bad"])})
            elif k < 0.7:
                h.append({"a": "igm", "t": t})
            elif k < 0.8 and nr < 2:
                h.append({"a": "ratio", "n": rng.choice(["r1", "r2"])})
                nr += 1
            elif t:
                m = rng.random()
                if m < 0.3:
                    h.append({"a": "vel", "t": t, "n": rng.choice(["em_vel", "abs_vel"]), "x": rng.randint(1, 9)})
                elif m < 0.6:
                    h.append({"a": rng.choice(["prior", "ism"]), "t": t, "x": rng.randint(0, 9)})
                elif ns < 3:
                    h.append({"a": "store", "t": t})
                    ns += 1
        if h:
            out.append(h)
    return out


def random_fits(rng, tier):
    out = []
    for _ in range(1500 if tier == "quick" else 30000):
        n = rng.randint(1, 5)
        idx = rng.sample(range(n), rng.randint(0, n))
        if rng.random() < .7:
            idx = sorted(idx)
        out.append([{"a": "fit", "cats": [[rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(n)] for _ in range(rng.randint(1, 4))],
                     "idx": idx, "amps": [rng.choice([-2, 0, 1, 2, 3, 7]) for _ in idx],
                     "errs": [rng.choice([1, 1, 2, -1]) for _ in idx]}])
    for _ in range(800 if tier == "quick" else 10000):
        n = rng.randint(1, 6)
        types = [rng.choice("EEA") for _ in range(n)]
        ids = rng.sample(range(n), n)
        elts = []
        while ids:
            k = rng.randint(1, len(ids))
            e, ids = ids[:k], ids[k:]
            elts += [[i for i in e if types[i] == t] for t in "EA" if any(types[i] == t for i in e)]
        out.append([{"a": "nominal", "types": types, "ism": rng.random() < .7, "elts": elts,
                     "cats": [{"amps": [rng.randint(0, 9) for _ in range(n)], "ism": rng.randint(0, 3)}
                              for _ in range(rng.randint(1, 3))]}])
    return out


def random_files(rng, tier):
    names = ["LyAE", "Ha", "[OII]", "Hb_x"]

    def catalogue(bad):
        rows, waves = [], rng.sample([1215670, 1215672, 1000000, 3728480, 3728482, 5008240, 6564610, 1216000], rng.randint(1, 6))
        for w in waves:
            rows.append([w, rng.choice(names), rng.choice("EEA"), rng.choice("SW"),
                         rng.choice(["SYM", "SYM", "LOR", "ASYM", "ASYMFIT"]), rng.choice(["-1", "-1", "g1", "g2"]),
                         rng.randint(0, 9), rng.choice(["em_vel", "abs_vel"]), rng.randint(-3, 3), rng.random() < 0.5])
        if bad:
            r = rng.choice(rows)
            k = rng.random()
            if k < 0.3:
                s = list(rng.choice(rows))
                s[0] += rng.choice([0, 0, 1, 10])
                s[rng.choice([3, 4, 5])] = "SYM" if rng.random() < 0 else s[3]
                s[4] = "SYM"
                s[5] = "g3"
                rows.append(s)
            elif k < 0.6:
                r[4] = rng.choice(["ASYMFIXED", "gauss"])
            elif k < 0.8:
                r[2] = "X"
            else:
                r[3] = "Q"
        return {"rows": rows, "missing": bad and rng.random() < 0.15, "igm": rng.random() < 0.3}

    def ratios(c, bad):
        out = []
        for i in range(rng.choice([1, 1, 2, 3])):
            rows = [[r[0] + rng.choice([0, 0, 0, 1]), r[1], r[2], rng.randint(0, 9)] for r in c["rows"] if rng.random() < 0.8]
            rng.shuffle(rows)
            if bad and rows:
                k = rng.random()
                if k < 0.3:
                    rows.append([rows[0][0] + rng.choice([0, 0, 20]), rows[0][1], rows[0][2], 4])
                elif k < 0.6:
                    j = rng.choice([0, 1, 2])
                    rows[-1][j] = [4000000, "unknown", "A" if rows[-1][2] == "E" else "E"][j]
            out.append({"name": "%s_ratio" % "bca"[i], "rows": rows, "nojson": bad and rng.random() < 0.2,
                        "prof": "bad" if bad and rng.random() < 0.2 else rng.choice(["ASYMFIXED", "ASYMFIT", "ASYM", "SYM"]),
                        "asym": [rng.randint(1, 6), rng.randint(-4, 9), 0], "em": rng.randint(50, 300), "abs": rng.randint(50, 300),
                        "sub": rng.choice(["SB", "Scd"])})
        if bad and rng.random() < 0.1:
            out = []
        return sorted(out, key=lambda q: q["name"])

    out = []
    for _ in range(500 if tier == "quick" else 8000):
        ebmv = rng.randint(1, 3)
        ms = []
        for n in rng.choice([["galaxy"], ["galaxy"], ["qso", "galaxy"]]):
            bad = rng.random() < 0.25
            where = rng.choice(["cat", "rats", "meas"])
            c = catalogue(bad and where == "cat")
            seen, rows = set(), []
            for r in c["rows"]:
                k = (r[1], (r[0] + 5) // 10, r[2])
                if k not in seen or (bad and where == "cat"):
                    rows.append(r)
                seen.add(k)
            c["rows"] = rows
            tpl = where == "rats" or rng.random() < 0.7
            meas = catalogue(bad and where == "meas")
            ms.append({"name": n, "cat": c, "meas": meas, "hasmeas": where == "meas" or rng.random() < 0.4,
                       "rats": ratios(c, bad and where == "rats"),
                       "ismfit": rng.random() < 0.6, "nebmv": ebmv, "tpl": tpl})
        out.append([{"a": "load", "models": ms}])
    return out


COMPONENTS = [
    Component("files", "CalibLines", "caliblines.py", consts={"Loads": "{}"}, histories=random_files),
    Component("catalogue", "LineCatalog", "linecatalog.cpp", consts=NONE,
              mc={"Defs": DEFS, "IdSet": "{1, 2}", "Amps": "{3}", "AsymSet": "{<<3, -2, 1>>}", "MaxRat": "1", "MaxStored": "1"},
              maxlen=(4, 6), max_edges=(5000, 100000), histories=random_catalogues,
              sim={"Defs": DEFS, "IdSet": "{1, 2, 3}", "Amps": "{3, 8}", "AsymSet": "{<<3, -2, 1>>, <<8, 1, 0>>}",
                   "MaxRat": "2", "MaxStored": "3"}, num_sim=(100, 3000), sim_len=(25, 40)),
    Component("detected", "LineDetected", "linecatalog.cpp",
              mc={"Poss": "{1, 2, 3}", "AmpSet": "{-1, 2}", "MaxLines": "4"}, maxlen=(6, 7), max_edges=(4000, 60000),
              sim={"Poss": "1..9", "AmpSet": "-2..4", "MaxLines": "30"}, num_sim=(60, 1500), sim_len=(30, 40)),
    Component("ratiofit", "RatioFit", "linecatalog.cpp",
              mc={"FCats": "{<<<<1, 2>>, <<0, 1>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>>>}", "FAmps": "{-2, 0, 1, 3}",
                  "FErrs": "{1, 2, -1}", "FIdx": "{<<>>, <<0>>, <<1>>, <<0, 1>>}"}, maxlen=(1, 1), pack=20,
              histories=random_fits, max_edges=(4000, 60000)),
]
