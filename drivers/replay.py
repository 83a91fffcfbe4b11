"""Whole real pipelines on small spectra.  Every history runs in a process
forked from a pristine one; the outcome of each spectrum alone, as first
spectrum of a pristine process, is recorded with the operation ("fresh")."""
import copy
import hashlib
import json
import os
import struct
import sys

import numpy as np
import pandas as pd
import pydrv
import pylibamazed.redshift as red
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader
from pylibamazed.CalibrationLibrary import CalibrationLibrary
from pylibamazed.Parameters import Parameters
from pylibamazed.ProcessFlow import ProcessFlow

T = "/repo/pylibamazed/auxdir/pylibamazed/test/"
zflag = red.CFlagWarning.GetInstance()
ctx = red.CProcessFlowContext.GetInstance()


def base():
    p = json.load(open(T + "p_se8_main.json"))
    g = p["galaxy"]
    g["redshiftrange"] = [3.0, 3.2]
    g["redshiftstep"] = 0.001
    lm = g["LineModelSolve"]["linemodel"]
    lm["velocityfit"] = False
    lm["firstpass"]["largegridstepratio"] = 5
    lm["extremacount"] = 2
    lm["firstpass"]["extremaCount"] = 2
    lm["enablephotometry"] = False
    q = Parameters(p, make_checks=False).parameters
    # (re-created from the converted form, as later versions are written)
    return q


GALAXY = ["lm", "lmfft", "lmbad", "tf", "ncbad", "co", "fft"]
STAR = ["tf", "ncbad", "cobad", "allbad", "tfbad", "tcncbad", "tcnc", "nc", "all", "fftnone", "fft"]


def kind(name, model):
    return dict(x.split("=") for x in name.split(",")).get(model) if "=" in name else None


def configs():
    a = base()
    out = {"lmtpl": a}
    # LSF of each spectrum
    b = copy.deepcopy(a)
    b["lsf"] = {"lsfType": "fromSpectrumData"}
    out["lmlsf"] = b
    # the same with log-rebinned continuum templates
    bf = copy.deepcopy(b)
    lm = bf["galaxy"]["redshiftSolver"]["lineModelSolve"]["lineModel"]
    lm["continuumFit"]["fftProcessing"] = True
    lm["useLogLambdaSampling"] = True
    lm["lineRatioType"] = "rules"
    lm["fittingMethod"] = "hybrid"
    lm["velocityFit"] = True
    out["lmfft"] = bf
    tf = {"overlapThreshold": 0.3, "spectrum": {"component": "raw"}, "interpolation": "preComputedFineGrid",
          "igmFit": False, "ismFit": True, "fftProcessing": False, "extremaCount": 2,
          "pdfCombination": "marg", "enablePhotometry": False}
    c = copy.deepcopy(a)
    g = c["galaxy"]
    g["stages"] = ["redshiftSolver"]
    g["redshiftSolver"] = {"method": "templateFittingSolve", "templateFittingSolve": tf}
    out["tf"] = c
    d = copy.deepcopy(c)
    d["galaxy"]["redshiftSolver"]["templateFittingSolve"]["fftProcessing"] = True
    d["galaxy"]["redshiftSolver"]["templateFittingSolve"]["spectrum"]["component"] = "raw"
    out["fft"] = d
    e = copy.deepcopy(c)
    e["star"] = copy.deepcopy(e["galaxy"])
    e["star"]["redshiftRange"] = [-0.002, 0.002]
    e["star"]["redshiftStep"] = 0.0005
    e["star"]["redshiftSampling"] = "lin"
    e["spectrumModels"] = ["galaxy", "star"]
    e["autoCorrectInput"] = True
    out["two"] = e
    # IGM extinction convolved by the LSF of each spectrum
    i = copy.deepcopy(c)
    i["lsf"] = {"lsfType": "fromSpectrumData"}
    i["galaxy"]["redshiftRange"] = [2.5, 2.8]
    i["galaxy"]["redshiftStep"] = 0.005
    i["lambdaRange"] = [3500, 6000]
    i["galaxy"]["redshiftSolver"]["templateFittingSolve"].update({"igmFit": True, "ismFit": False})
    out["igm"] = i
    # log-rebinned templates which do not cover the redshift range
    x = copy.deepcopy(d)
    x["galaxy"]["redshiftRange"] = [0.1, 3.2]
    out["fftz"] = x
    # the last template covers what log-sampled spectra need, not the others
    out["fftp"] = copy.deepcopy(d)
    # several models: <model>=<kind>[,<model>=<kind>], in the order they run
    kinds = copy.deepcopy({"lm": a["galaxy"], "lmfft": bf["galaxy"], "tf": c["galaxy"], "fft": d["galaxy"]})
    for k in ("tf", "fft", "lmfft"):
        kinds[k]["redshiftRange"], kinds[k]["redshiftStep"] = [3.0, 3.1], 0.002
    for k, f in (("nc", "nocontinuum"), ("co", "continuum"), ("all", "all")):
        kinds[k] = copy.deepcopy(kinds["tf"])
        kinds[k]["redshiftSolver"]["templateFittingSolve"]["spectrum"]["component"] = f
    for k, f in (("tc", "raw"), ("tcnc", "noContinuum")):
        kinds[k] = copy.deepcopy(kinds["tf"])
        kinds[k]["redshiftSolver"] = {"method": "tplCombinationSolve", "tplCombinationSolve": {
            **tf, "spectrum": {"component": f}, "ismFit": False, "interpolation": "lin"}}
    for k in ("lmbad", "ncbad", "cobad", "allbad", "tfbad", "tcncbad"):
        kinds[k] = copy.deepcopy(kinds[k[:-3]])
    kinds["fftnone"] = copy.deepcopy(kinds["fft"])
    names = ["%s=%s,%s=%s" % x for g in GALAXY for k in STAR
             for x in (("star", k, "galaxy", g), ("galaxy", g, "star", k))]
    names += ["galaxy=" + k for k in GALAXY] + ["star=" + k for k in STAR]
    for n in names:
        q = copy.deepcopy(a)
        q["spectrumModels"] = []
        q["continuumRemoval"] = {"method": "irregularSamplingMedian", "medianKernelWidth": 400.,
                                 "medianEvenReflection": True}
        q["templateCatalog"] = {"continuumRemoval": q["continuumRemoval"]}
        for m, k in (x.split("=") for x in n.split(",")):
            q["spectrumModels"].append(m)
            q[m] = copy.deepcopy(kinds[k])
            if m == "star":
                q[m]["redshiftRange"], q[m]["redshiftSampling"] = [0.0, 0.02], "log" if "fft" in k else "lin"
        out[n] = q
    return out


def spectra():
    df = pd.read_table(T + "spectra/134845168.dat", delimiter="\t")
    w, f, s = (np.array(df[c], dtype=float) for c in ("wave", "flux", "err"))
    rng = np.random.RandomState(5)
    f = f + 1e-17 * np.exp(-.5 * ((w - 3728.5 * 4.1) / 22) ** 2)
    out = {"base": (w, f, s, 12.0)}
    out["noisy"] = (w, f * 3 + rng.normal(0, 1, len(f)) * s, s * 2, 20.0)
    out["short"] = (w[60:300], f[60:300], s[60:300], 12.0)
    out["zero"] = (w, f * 0, s, 12.0)
    nan = f.copy()
    nan[100:103] = np.nan
    out["nan"] = (w, nan, s, 9.0)
    # logarithmic sampling, with two steps
    for name, step in (("log1", 1e-3), ("log2", 7e-4)):
        n = int(np.log(w[-1] / w[0]) / step)
        x = w[0] * np.exp(step * np.arange(n))
        out[name] = (x, np.interp(x, w, f), np.interp(x, w, s), 12.0)
    out["outside"] = (w * 0.3, f, s, 12.0)
    return out


CFG, SPC = configs(), spectra()
_real = CalibrationLibrary.load_all
POOL = {}
COPIES = 2


class Reader(ASCIISpectrumReader):
    def load_lsf(self, width, obs_id=""):
        self.lsf_type = "gaussianConstantWidth"
        lsf = np.ndarray((1,), dtype=np.dtype([("width", "<f8")]))
        lsf["width"][0] = width
        self.lsf_data.append(lsf, obs_id)


def add_template(self, name, category, slope, start=800):
    w = np.linspace(start, 20000, 4500)
    t = red.CTemplate(name, category, red.CSpectrumSpectralAxis(w),
                      red.CSpectrumFluxAxis_withSpectrum((w / 5000) ** slope))
    self.templates_catalogs["all"].Add(t)


def load_all(self, calibs="all"):
    name = CURRENT[0]
    pool = POOL.setdefault(name, [])
    if pool and not CURRENT[1]:
        self.__dict__.update(pool.pop().__dict__)
        return
    models = self.parameters.get_spectrum_models()
    self.parameters.parameters["spectrumModels"] = ["galaxy"]
    if "galaxy" not in models:
        for d in (self.line_catalogs, self.line_catalogs_df, self.line_ratio_catalog_lists, self.lambda_offsets):
            d.setdefault("galaxy", {})
    _real(self, calibs)
    self.parameters.parameters["spectrumModels"] = models
    if "star" in models:
        self.line_catalogs.setdefault("star", {})
        if kind(name, "star") not in ("fftnone", "tcncbad"):
            add_template(self, "bb", "star", -2)
    for m in models if "=" in name else []:
        if kind(name, m) not in ("fftnone", "tcncbad"):
            add_template(self, "red", m, 1)
        if kind(name, m).endswith("bad"):
            add_template(self, "late", m, 1, 19500)
    if name == "igm":
        self.templates_catalogs["all"] = red.CTemplateCatalog()
        w = 200 + 0.05 * np.arange(22000)
        curves = [np.where(w > 1216, 1., .6 - .1 * k + .2 * np.sign(np.sin(w / 3)))
                  for k in (0, 1)]
        self.meiksin = red.CSpectrumFluxCorrectionMeiksin(red.VecMeiksinCorrection(
            [red.MeiksinCorrection(w, red.VecTFloat64List(curves)) for _ in (0, 1)]),
            [2., 2.7, 3.])
    if "galaxy" in models:
        add_template(self, "blue", "galaxy", -1)
    if name == "fftp":
        add_template(self, "narrow", "galaxy", -3, 2979.2)


CalibrationLibrary.load_all = load_all
CURRENT = [None, False]


def make_flow(name):
    CURRENT[0] = name
    par = Parameters({}, make_checks=False)
    par.parameters = copy.deepcopy(CFG[name])
    if name == "two":
        zflag.warning(red.WarningCode(1 << 3), "w")
    config = {"calibration_dir": T + "calibration", "extended_results": True}
    flow = ProcessFlow(config, par)
    flow.name = name
    return flow


def preload(names):
    for name in names:
        if name in POOL:
            continue
        libs = []
        CURRENT[1] = True
        for _ in range(COPIES):
            CURRENT[0] = name
            par = Parameters({}, make_checks=False)
            par.parameters = copy.deepcopy(CFG[name])
            lib = CalibrationLibrary(par, T + "calibration")
            POOL[name] = []
            lib.load_all()
            libs.append(lib)
        CURRENT[1] = False
        POOL[name] = libs


def feed(h, v):
    if isinstance(v, dict):
        for k in sorted(v, key=str):
            h.update(b"{" + str(k).encode())
            feed(h, v[k])
    elif isinstance(v, (list, tuple)):
        h.update(b"[%d" % len(v))
        for x in v:
            feed(h, x)
    elif isinstance(v, np.ndarray):
        h.update(b"a%d" % v.size)
        if v.dtype.kind == "f":
            h.update(("%s" % [float("%.9g" % x) for x in v.ravel()]).encode())
        else:
            h.update(str(v.tolist()).encode())
    elif isinstance(v, (float, np.floating)):
        h.update(b"f%r" % float("%.9g" % float(v)) if False else ("f%.9g" % float(v)).encode())
    else:
        h.update(str(v).encode())


def run_one(pf, name):
    w, f, s, width = SPC[name]
    if pf.parameters.parameters["lambdaRange"][0] < 5000:
        w, width = w * 0.3, width * 0.4
    r = Reader("id", pf.parameters, pf.calibration_library, name)
    r.load_wave(pd.DataFrame({"wave": w}))
    r.load_flux(pd.DataFrame({"flux": f}))
    r.load_error(pd.DataFrame({"err": s}))
    if pf.parameters.get_lsf_type() == "fromSpectrumData":
        r.load_lsf(width)
    rso, ret = pydrv.attempt(lambda: pf.run(r))
    if ret != "ok":
        zflag.resetFlag()
        return {"ret": ret}
    digests = {}
    for part, v in [("root", rso.root_results)] + sorted(rso.object_results.items()):
        h = hashlib.sha1()
        feed(h, v)
        digests[part] = h.hexdigest()[:16]
        if os.environ.get("DBG"):
            digests[part + "_x"] = str(v)[:300]
    errors = {k: e["code"] + ":" + e["message"] for k, e in sorted(rso.errors.items())}
    if "=" in pf.name:
        # what each model is given, whatever the others are
        return {"ret": ret, "init": errors.get("init", ""), "models": {
            m: {"digest": digests.get(m, ""),
                "errors": [[k, e] for k, e in errors.items() if k.endswith("_" + m)]}
            for m in pf.parameters.get_spectrum_models()}}
    return {"ret": ret, "digests": digests, "errors": errors}


def in_child(f):
    """result of f() computed in a forked process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = json.dumps(f()).encode()
            while data:
                data = data[os.write(wr, data):]
            os._exit(0)
        except BaseException as e:
            sys.stderr.write("child: %r\n" % e)
            if os.environ.get("DBG"):
                import traceback
                traceback.print_exc()
            os._exit(1)
    os.close(wr)
    data = b""
    while True:
        x = os.read(rd, 65536)
        if not x:
            break
        data += x
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


CACHE = os.path.join(os.path.dirname(os.environ.get("VERIF_SCRATCH", "/tmp/x")), "fresh")
_fresh = {}


def fresh(cfg, spc):
    key = cfg + "_" + spc
    if key not in _fresh:
        f = os.path.join(CACHE, key)
        if os.path.exists(f):
            _fresh[key] = json.load(open(f))
        else:
            os.makedirs(CACHE, exist_ok=True)
            _fresh[key] = in_child(lambda: run_one(make_flow(cfg), spc)) or {"ret": "crash"}
            tmp = f + ".%d" % os.getpid()
            json.dump(_fresh[key], open(tmp, "w"))
            os.rename(tmp, f)
    return _fresh[key]


def history(ops):
    pf, cfg, out = None, None, []
    for op in ops:
        if op["a"] == "new":
            cfg = op["cfg"]
            pf, ret = pydrv.attempt(lambda: make_flow(cfg))
            out.append({"ret": ret})
        else:
            out.append(run_one(pf, op["s"]))
    return out


def main():
    hist, out, status, start = sys.argv[1:5]
    lines = open(hist).read().splitlines()

    def line(op, obs):
        return json.dumps({"obs": obs, "op": op}, sort_keys=True, separators=(",", ":")) + "\n"
    with open(out, "a") as f:
        for x in lines[int(start):]:
            ops = json.loads(x)
            preload([o["cfg"] for o in ops if o["a"] == "new"])
            f.write('{"obs":{},"op":{"a":"reset"}}\n')
            res = in_child(lambda: history(ops))
            cfg = None
            for i, op in enumerate(ops):
                if op["a"] == "new":
                    cfg = op["cfg"]
                else:
                    if "," in cfg:
                        op["alone"] = {x.split("=")[0]: fresh(x, op["s"]) for x in cfg.split(",")}
                    else:
                        op["fresh"] = fresh(cfg, op["s"])
                f.write(line(op, res[i] if res else {"crash": "SIGNAL"}))
                if not res:
                    break
    with open(status, "w") as s:
        s.write("%d done\n" % len(lines))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
