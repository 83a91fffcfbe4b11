"""C16: line catalogues and line ratio catalogues loaded from their files."""
import json
import os
import shutil
import tempfile

import pydrv
import pylibamazed.CalibrationLibrary as cl
import pylibamazed.redshift as red
from pylibamazed.Parameters import Parameters


# what the loader hands over to the catalogues (their own behaviour is the
# other component's)
def asym(p):
    return [round(p.sigma * 2), round(p.alpha * 2), round(p.delta * 2)]


class Lines(red.CLineCatalog):
    def __init__(self, *a):
        super().__init__(*a)
        self.rows = {}

    def AddLineFromParams(self, name, pos, ty, force, prof, asy, grp, amp, vg, off, fit, id, sid, *igm):
        super().AddLineFromParams(name, pos, ty, force, prof, asy, grp, amp, vg, off, fit, id, sid, *igm)
        key = None
        if sid.startswith(name + "_") and sid.endswith("_" + ty):
            key = round(float(sid[len(name) + 1:-len(ty) - 1]) * 100)
        self.rows[id] = [id, name, round(pos * 1000), ty, force, prof, grp, round(amp), vg, round(off), bool(fit), key]

    def convertLineProfiles2SYMIGM(self, igm):
        super().convertLineProfiles2SYMIGM(igm)
        for r in self.rows.values():
            if r[3][0] == "E" and (r[1] == "LyAE" or r[2] < 1216000):
                r[5] = "SYMIGM"


class Ratio(red.CLineRatioCatalog):
    def __init__(self, name, main):
        super().__init__(name, main)
        self.name, self.vel, self.prior, self.ism = name, {}, 1, 0
        self.rows = {i: [i, 0, r[5], [0, 0, 0]] for i, r in main.rows.items()}

    def setLineAmplitude(self, id, x):
        super().setLineAmplitude(id, x)
        self.rows[id][1] = round(x)

    def addVelocity(self, n, v):
        super().addVelocity(n, v)
        self.vel[n] = round(v)

    def setPrior(self, p):
        super().setPrior(p)
        self.prior = p

    def setIsmIndex(self, k):
        super().setIsmIndex(k)
        self.ism = int(k)

    def setAsymProfileAndParams(self, p, a):
        super().setAsymProfileAndParams(p, a)
        for r in self.rows.values():
            if r[2] in ("ASYM", "ASYMFIT"):
                r[2], r[3] = p, asym(a) if p != "SYM" else [0, 0, 0]


class RatioList(red.CLineCatalogsTplRatio):
    def __init__(self):
        super().__init__()
        self.stored, self.priors = [], []

    def addLineRatioCatalog(self, c):
        super().addLineRatioCatalog(c)
        self.stored.append({"name": c.name, "ism": c.ism, "em": c.vel["em_vel"], "abs": c.vel["abs_vel"],
                            "lines": [list(c.rows[i]) for i in sorted(c.rows)]})
        self.priors.append(c.prior)


cl.CLineCatalog, cl.CLineRatioCatalog, cl.CLineCatalogsTplRatio = Lines, Ratio, RatioList
COLS = "WaveLength Name Type Force Profile AmplitudeGroupName AmplitudeGroupValue DispersionVelocityGroupName " \
       "WaveLengthOffset EnableFitWaveLengthOffset".split()


def tsv(path, cols, rows):
    with open(path, "w") as f:
        for r in [cols] + rows:
            f.write("\t".join(str(x) for x in r) + "\n")


def wl(w):
    return "%d.%03d" % (w // 1000, w % 1000)


class Driver:
    def reset(self):
        pass

    def step(self, op):
        d = tempfile.mkdtemp(prefix="caliblines_")
        try:
            return self.load(op, d)
        finally:
            shutil.rmtree(d)

    def load(self, op, d):
        p = {"version": 2, "spectrumModels": [m["name"] for m in op["models"]], "lsf": {"lsfType": "fromSpectrumData"},
             "ebmv": {"count": op["models"][0]["nebmv"]}}
        for m in op["models"]:
            n = m["name"]
            for k, c in (("cat", m["cat"]), ("meas", m["meas"])):
                if not c["missing"]:
                    tsv("%s/%s_%s.tsv" % (d, n, k), COLS, [[wl(r[0])] + r[1:] for r in c["rows"]])
            os.mkdir("%s/%s_ratios" % (d, n))
            for q in m["rats"]:
                tsv("%s/%s_ratios/%s.tsv" % (d, n, q["name"]), ["WaveLength", "Name", "Type", "NominalAmplitude"],
                    [[wl(r[0])] + r[1:] for r in q["rows"]])
                if not q["nojson"]:
                    a = q["asym"]
                    json.dump({"asym_params": {"profile": q["prof"], "sigma": a[0] / 2, "alpha": a[1] / 2, "delta": a[2] / 2},
                               "velocities": {"em_vel": q["em"], "abs_vel": q["abs"]}, "sub_type": q["sub"]},
                              open("%s/%s_ratios/%s.json" % (d, n, q["name"]), "w"))
            lm = {"lineCatalog": n + "_cat.tsv", "nSigmaSupport": 8, "lya": {"profile": "igm" if m["cat"]["igm"] else "asym"},
                  "lineRatioType": "tplRatio" if m["tpl"] else "rules", "tplRatioCatalog": n + "_ratios",
                  "tplRatioIsmFit": m["ismfit"]}
            meas = {"lineCatalog": n + "_meas.tsv", "nSigmaSupport": 8, "lya": {"profile": "igm" if m["meas"]["igm"] else "asym"},
                    "lineRatioType": "rules"}
            p[n] = {"stages": ["redshiftSolver"] + (["lineMeasSolver"] if m["hasmeas"] else []),
                    "redshiftSolver": {"method": "lineModelSolve", "lineModelSolve": {"lineModel": lm}},
                    "lineMeasSolver": {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": meas}}}
        lib = cl.CalibrationLibrary(Parameters(p, make_checks=False), d)
        _, ret = pydrv.attempt(lambda: lib.load_all(["lineCatalogs", "lineratios"]))
        obs = {"ret": ret}
        if ret == "ok":
            obs["models"] = [self.view(lib, m) for m in op["models"]]
        return obs

    def view(self, lib, m):
        n = m["name"]

        def rows(meth):
            c = lib.line_catalogs[n].get(meth)
            return [c.rows[i] for i in sorted(c.rows)] if c else []
        lst = lib.line_ratio_catalog_lists.get(n)
        share = 0
        if lst and lst.priors:
            # every ratio catalogue is as likely as the others
            share = round(1 / lst.priors[0]) if len(set(lst.priors)) == 1 and abs(sum(lst.priors) - 1) < 1e-9 else -1
        return {"name": n, "cat": rows("lineModelSolve"), "meas": rows("lineMeasSolve"),
                "rats": lst.stored if lst else [], "share": share,
                "subs": [lib.get_sub_type(n, q["name"]) for q in m["rats"]] if lst else []}


pydrv.main(Driver())
