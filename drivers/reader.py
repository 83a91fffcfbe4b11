"""C10: a spectrum reader over the columns it is given."""
import math
import os
import tempfile
import numpy as np
import pydrv
import pylibamazed.redshift as red
from pylibamazed.AbstractSpectrumReader import AbstractSpectrumReader, Container
from pylibamazed.CalibrationLibrary import CalibrationLibrary
from pylibamazed.Parameters import Parameters

zflag = red.CFlagWarning.GetInstance()
RAISED = []
_warning = red.CFlagWarning.warning


def warning(self, c, message):
    RAISED.append(red.WarningCode(c).name)
    return _warning(self, c, message)


red.CFlagWarning.warning = warning
OBSIDS = []
_setobs = red.CSpectrum.setObsID


def setobs(self, o):
    OBSIDS.append(o)
    return _setobs(self, o)


red.CSpectrum.setObsID = setobs
AIR = 1.000281


class Reader(AbstractSpectrumReader):
    def load_wave(self, v, obs_id=""):
        self.waves.append(np.array([4000.0 + 10 * x for x in v]), obs_id)

    def load_flux(self, v, obs_id=""):
        self.fluxes.append(np.array(v, dtype=float), obs_id)

    def load_error(self, v, obs_id=""):
        self.errors.append(np.array(v, dtype=float), obs_id)

    def load_lsf(self, v, obs_id=""):
        self.lsf_type = "gaussianConstantWidth"
        lsf = np.ndarray((1,), dtype=np.dtype([("width", "<f8")]))
        lsf["width"][0] = v
        self.lsf_data.append(lsf, obs_id)

    def load_other(self, name, v, obs_id=""):
        self.others.setdefault(name, Container()).append(np.array(v, dtype=int), obs_id)


class Driver:
    def __init__(self):
        self.tmp = tempfile.mkdtemp()

    def reset(self):
        red.CProcessFlowContext.GetInstance().reset()
        zflag.resetFlag()
        self.new({"multi": "", "range": [0, 9], "ranges": {}, "filters": [], "lsf": "param",
                  "air": "", "frame": "vacuum", "others": []})

    def new(self, c):
        rng = [4000.0 + 10 * x for x in c["range"]]
        p = {"multiObsMethod": c["multi"], "lambdaRange": rng, "spectrumModels": [],
             "airVacuumMethod": c["air"],
             "lsf": {"lsfType": "gaussianConstantWidth", "width": 2.0} if c["lsf"] == "param"
             else {"lsfType": "fromSpectrumData"}}
        if c["multi"] == "full":
            p["lambdaRange"] = {o: [4000.0 + 10 * x for x in r] for o, r in dict(c["ranges"] or {}).items()}
        if c["filters"]:
            p["filters"] = [{"key": f["key"], "instruction": f["instruction"],
                             "value": f["value"] / 2} for f in c["filters"]]
        params = Parameters(p, make_checks=False)
        red.CProcessFlowContext.GetInstance().reset()
        self.failed = False
        self.r = Reader("obs", params, CalibrationLibrary(params, self.tmp), "src")
        self.r.others = {n: Container() for n in c["others"]}
        if c["frame"] == "air":
            self.r.set_air()

    def view(self):
        r = self.r
        sp = []
        for o in r._spectra:
            s = r.get_spectrum(o)
            w, f, e = r.get_wave(o), r.get_flux(o), r.get_error(o)
            air = any(abs(x - round(x)) > 0.01 for x in w)
            idx = [int(round(((x / AIR if air else x) - 4000) / 10)) for x in w]
            sp.append({"obs": o, "air": air, "sorted": bool(np.all(np.diff(w) > 0)),
                       "rows": [{"wave": i, "flux": int(y), "err": int(z)} for i, y, z in zip(idx, f, e)]
                       if len(w) == len(f) == len(e) else "misaligned",
                       "lsf": self.width(s), "name": s.GetName()})
        others = []
        for o in r.waves.keys():
            if r.others:
                df = r.get_filtered_others(o)
                others.append({"obs": o, "rows": [{k: int(x) for k, x in zip(df.columns, t)}
                                                  for t in df.itertuples(index=False)]})
            else:
                others.append({"obs": o, "rows": []})
        return {"spectra": sp, "others": others, "lsfobs": r.get_loaded_lsf_observation_ids(),
                "obslist": list(r.get_observation_ids())}

    def width(self, s):
        return int(round(s.GetLSF().GetWidth(4020.0)))

    def step(self, op):
        a = op["a"]
        if a == "new":
            self.new(op["cfg"])
            return {"ret": "ok"}
        if a == "load":
            f = {"wave": self.r.load_wave, "flux": self.r.load_flux, "err": self.r.load_error}.get(
                op["col"], lambda v, o: self.r.load_other(op["col"], v, o))
            return {"ret": pydrv.attempt(lambda: f(op["v"], op["obs"]))[1]}
        if a == "lsf":
            return {"ret": pydrv.attempt(lambda: self.r.load_lsf(op["v"], op["obs"]))[1]}
        if a == "init":
            RAISED.clear()
            OBSIDS.clear()
            ret = pydrv.attempt(self.r.init)[1]
            self.failed = ret != "ok"
            zflag.resetFlag()
            if ret != "ok":
                return {"ret": ret}
            return {"ret": ret, "warn": list(RAISED), "ids": list(OBSIDS), "view": self.view()}
        if a == "read":
            if self.failed:
                return {"ret": "not read"}
            if self.r._spectra:
                return {"ret": "ok", "view": self.view()}
            rets = {pydrv.attempt(lambda f=f: f("a"))[1] for f in
                    (self.r.get_spectrum, self.r.get_wave, self.r.get_flux, self.r.get_error, self.r.get_lsf)}
            return {"ret": "+".join(sorted(rets))}
        raise ValueError(a)


if __name__ == "__main__":
    pydrv.main(Driver())
