from core import Component

BUILD = "py"


def b3(rng):
    return rng.choice(["T", "F", ""])


def cr(rng, p=0.5):
    on = rng.random() < p
    return {"on": on, "method": rng.choice(["", "zero", "irregularSamplingMedian", "irregularSamplingMedian"]),
            "width": rng.choice(["", "5"]), "refl": b3(rng)}


def model(rng, name, tidy):
    """a spectrum model; with probability tidy each dependent parameter
    follows the choice it depends on"""
    def dep(cond, v):
        return v if (cond if rng.random() < tidy else rng.random() < 0.5) else ""

    def flag(cond):
        return bool(cond if rng.random() < tidy else rng.random() < 0.5)
    rs = rng.choice(["", "templateFittingSolve", "tplCombinationSolve",
                     "lineModelSolve", "lineModelSolve"])
    lmeas_stage = rng.random() < 0.4
    rel = rng.random() < 0.3
    stages = (["redshiftSolver"] if rs else []) + (["lineMeasSolver"] if lmeas_stage else []) \
        + (["reliabilitySolver"] if rel else [])
    mon = flag(lmeas_stage)
    mt, mf = rng.choice(["rules", "tplRatio"]), rng.choice(["hybrid", "lbfgsb"])
    mv = dep(mf == "lbfgsb", rng.choice(["T", "F"]))
    vel = ["emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax"]
    mp = rng.choice(["asym", "igm"])
    tphot = rng.choice(["T", "F", "F", ""])
    lrt = rng.choice(["rules", "tplRatio", "tplCorr"])
    tpl = lrt != "rules"
    cc = rng.choice(["fromSpectrum", "tplFit", "tplFitAuto", "noContinuum"])
    fits = cc.startswith("tplFit")
    cfft = rng.choice(["T", "F", "F"])
    skip = b3(rng)
    p2 = flag(skip == "F")
    n = rng.choice([0, 2, 3])
    prof = rng.choice(["asym", "igm"])
    return {
        "m": name, "stages": stages, "rs": rs,
        "tdir": dep(rs in ("templateFittingSolve", "tplCombinationSolve")
                    or rs == "lineModelSolve" and fits, "t"),
        "dz": dep(lmeas_stage and mon, "1"), "dstep": dep(lmeas_stage and mon, "1"),
        "rel": flag(rel),
        "lmeas": {"on": mon, "lineRatioType": mt, "rules": dep(mt == "rules", "all"),
                  "fittingMethod": mf, "velocityFit": mv,
                  "vel": [v for v in vel if flag(mv == "T")],
                  "lya": True, "profile": mp, "asym": flag(mp == "asym")},
        "tf": {"on": flag(rs == "templateFittingSolve"), "ism": b3(rng),
               "fft": rng.choice(["T", "F"]) if tphot != "T" else dep(False, "T"),
               "phot": tphot, "igm": "", "weight": flag(tphot == "T"),
               "comp": rng.choice(["", "raw", "raw", "noContinuum"])},
        "tc": {"on": flag(rs == "tplCombinationSolve"), "ism": b3(rng),
               "phot": rng.choice(["", "T"]), "comp": rng.choice(["", "raw", "raw", "continuum"])},
        "lm": {"on": flag(rs == "lineModelSolve"), "lineRatioType": lrt,
               "rules": dep(not tpl, "all"),
               "improveBalmerFit": b3(rng), "tplRatioCatalog": dep(tpl, "c"),
               "tplRatioIsmFit": dep(tpl, "F"), "continuumComponent": cc,
               "continuumReestimation": dep(cc == "fromSpectrum", rng.choice(["no", "always", "onlyextrema"])),
               "fittingMethod": rng.choice(["individual", "hybrid"]),
               "skipSecondPass": skip,
               "useLogLambdaSampling": dep(fits and cfft == "T", rng.choice(["T", "F"])),
               "enablePhotometry": rng.choice(["", "F", "F", "T"]) if cfft != "T" else dep(False, "T"),
               "cfit": flag(fits) if cfft != "T" else True, "cfft": cfft, "cism": b3(rng),
               "p2": p2, "p2fit": dep(fits, "x"), "p1": True, "p1ism": dep(tpl, "F"),
               "p1n": rng.choice([0, n, n + 1]) if rng.random() < tidy else 1, "n": n,
               "lya": True, "profile": prof, "asym": flag(prof == "asym")},
    }


def needs(ms):
    def any_(f):
        return any(f(m) for m in ms)

    def comp(m):
        return any(m[k]["on"] and m[k]["comp"] not in ("", "raw") for k in ("tf", "tc"))
    phot = any_(lambda m: {"templateFittingSolve": m["tf"]["on"] and m["tf"]["phot"] == "T",
                           "tplCombinationSolve": m["tc"]["on"] and m["tc"]["phot"] == "T",
                           "lineModelSolve": m["lm"]["on"] and m["lm"]["enablePhotometry"] == "T"}
                .get(m["rs"], False))
    cont = any_(lambda m: comp(m) or m["lm"]["on"]
                and (m["lm"]["continuumComponent"] in ("fromSpectrum", "tplFitAuto")
                     or m["lm"]["continuumReestimation"] not in ("", "no")))
    lsf = any_(lambda m: m["rs"] == "lineModelSolve" or "lineMeasSolver" in m["stages"])
    return phot, cont, any_(comp), lsf


def config(rng, tidy=None):
    if tidy is None:
        tidy = rng.choice([1, 1, 0.97, 0.9])
    ms = [model(rng, n, tidy) for n in rng.choice([["galaxy"], ["galaxy"], ["galaxy", "star"], ["qso_2", "galaxy"]])]
    phot, cont, tcont, lsf = needs(ms)

    def flag(cond):
        return bool(cond if rng.random() < tidy else rng.random() < 0.5)

    def section(on):
        s = cr(rng)
        s["on"] = flag(on)
        if s["method"] == "irregularSamplingMedian":
            s["width"] = "5" if flag(True) else ""
            s["refl"] = rng.choice(["T", "F"]) if flag(True) else ""
        elif rng.random() < tidy:
            s["width"] = s["refl"] = ""
        return s
    t = rng.choice(["gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016",
                    "gaussianNISPVSSPSF201707", "fromSpectrumData", "gaussianVariableWidth"])
    want = {"gaussianConstantWidth": "width", "gaussianConstantResolution": "resolution",
            "gaussianNISPVSSPSF201707": "sourceSize", "gaussianVariableWidth": "file"}.get(t)
    return {"photdir": flag(phot), "photband": 2 if flag(phot) else rng.choice([-1, 0]),
            "filters": rng.choice(["none", "none", "ok", "empty"]) if rng.random() < tidy
            else rng.choice(["key", "key1", "keymid", "missmid", "missing", "extra", "dict"]),
            "addcol": rng.random() < 0.3, "ebmv": flag(True),
            "lsf": t if flag(lsf) else "",
            "lsfhas": [x for x in ("width", "resolution", "sourceSize", "file") if flag(x == want)],
            "cr": section(cont), "tcr": section(tcont), "models": ms}


def histories(rng, tier):
    return [[{"a": "check", "c": config(rng)}] for _ in range(3000 if tier == "quick" else 60000)]


SCENES = '{"lsf", "filters", "tf", "phot", "cr", "tc", "lmeas", "vel", "lmratio", "lmcont", "lmmisc", "lmext"}'
COMPONENTS = [
    Component("checks", "Params", "params.py", mc={"Scenes": SCENES, "Acts": '{"check"}'}, maxlen=1,
              histories=histories, pack=25),
]
