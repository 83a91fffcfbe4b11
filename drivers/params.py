"""Parameter checking and normalisation.  op "check": an abstract
configuration is expanded to a parameter tree and given to the consistency
check.  "extend": it is normalised; "poke": the caller changes a value in one of
the results it got."""
import copy
import json
import os
import pydrv
import pylibamazed.redshift as red
from pylibamazed.ParametersChecker import ParametersChecker
from pylibamazed.Parameters import Parameters
from pylibamazed.ParametersExtender import ParametersExtender

zflag = red.CFlagWarning.GetInstance()
RAISED = []
_warning = red.CFlagWarning.warning


def warning(self, c, message):
    RAISED.append(message)
    return _warning(self, c, message)


red.CFlagWarning.warning = warning


# the names of schema version 1 and what they are called since
V1NAMES = [tuple(x.split()) for x in """
    fromfirstpass fromFirstPass
    retryall retryAll
    refitfirstpass reFitFirstPass
    IrregularSamplingMedian irregularSamplingMedian
    Morton2000 morton2000
    Edlen1953 edlen1953
    Edlen1966 edlen1966
    Peckreeder1972 peckreeder1972
    Ciddor1996 ciddor1996
    instrumentdriven instrumentDriven
    velocitydriven velocityDriven
    tplratio tplRatio
    tplcorr tplCorr
    strongweak strongWeak
    ratiorange ratioRange
    tplfitauto tplFitAuto
    tplfit tplFit
    nocontinuum noContinuum
    bestchi2 bestChi2
    GaussianConstantWidth gaussianConstantWidth
    GaussianConstantResolution gaussianConstantResolution
    GaussianNISPSIM2016 gaussianNISPSIM2016
    GaussianNISPVSSPSF201707 gaussianNISPVSSPSF201707
    FROMSPECTRUMDATA fromSpectrumData
    fromspectrum fromSpectrum
    GaussianVariableWidth gaussianVariableWidth
    precomputedfinegrid preComputedFineGrid
    maxintproba maxIntProba
    additional_cols additionalCols
    airvacuum_method airVacuumMethod
    autocorrectinput autoCorrectInput
    extremaredshiftseparation extremaRedshiftSeparation
    multiobsmethod multiObsMethod
    lambdarange lambdaRange
    LSF lsf
    objects spectrumModels
    LSFType lsfType
    sourcesize sourceSize
    GaussianVariablewidthFileName gaussianVariableWidthFileName
    redshiftrange redshiftRange
    redshiftstep redshiftStep
    redshiftsampling redshiftSampling
    template_dir templateDir
    linemeas_dzhalf lineMeasDzHalf
    linemeas_redshiftstep lineMeasRedshiftStep
    LineMeasSolve lineMeasSolve
    fftprocessing fftProcessing
    enablephotometry enablePhotometry
    extremacount extremaCount
    igmfit igmFit
    ismfit ismFit
    pdfcombination pdfCombination
    absvelocityfitmax absVelocityFitMax
    absvelocityfitmin absVelocityFitMin
    absvelocityfitstep absVelocityFitStep
    ampoffsetfit ampOffsetFit
    continuumcomponent continuumComponent
    continuumfit continuumFit
    continuumreestimation continuumReestimation
    emvelocityfitmax emVelocityFitMax
    emvelocityfitmin emVelocityFitMin
    emvelocityfitstep emVelocityFitStep
    euclidnhaemittersStrength nOfZPriorStrength
    extremacountB extremaCountB
    extremacutprobathreshold extremaCutProbaThreshold
    fittingmethod fittingMethod
    haprior hAlphaPrior
    lbdaoffsetfit lbdaOffsetFit
    linecatalog lineCatalog
    lineforcefilter lineForceFilter
    linetypefilter lineTypeFilter
    linewidthtype lineWidthType
    lyafit lyaFit
    lyaforcedisablefit lyaForceDisableFit
    lyaforcefit lyaForceFit
    nsigmasupport nSigmaSupport
    secondpasslcfittingmethod secondPassLcFittingMethod
    skipsecondpass skipSecondPass
    secondpass secondPass
    stronglinesprior strongLinesPrior
    tplratio_ismfit tplRatioIsmFit
    tplratio_catalog tplRatioCatalog
    useloglambdasampling useLogLambdaSampling
    velocityabsorption velocityAbsorption
    velocityemission velocityEmission
    velocityfit velocityFit
    ignorelinesupport ignoreLineSupport
    negativethreshold negativeThreshold
    nullthreshold nullThreshold
    catalog_dirpath catalogDirPath
    largegridstepratio largeGridStepRatio
    multiplecontinuumfit_disable multipleContinuumFitDisable
    asymfitmax asymFitMax
    asymfitmin asymFitMin
    asymfitstep asymFitStep
    deltafitmax deltaFitMax
    deltafitmin deltaFitMin
    deltafitstep deltaStepMax
    widthfitmax widthFitMax
    widthfitmin widthFitMin
    widthfitstep widthFitStep
    margampcorr margAmpCorr
    bestzoption bestZOption
    halfwindowsize halfWindowSize
    polynomialdegree polynomialDegree
    reliability_model reliabilityModel
    TemplateFittingSolve templateFittingSolve
    TplcombinationSolve tplCombinationSolve
    LineModelSolve lineModelSolve
    linemodel lineModel
    firstpass firstPass
""".split("\n") if x]


def filler(i):
    return {x[i]: k for k, x in enumerate(V1NAMES)}


def version1(p):
    """the parameter tree p as schema version 1 writes it"""
    old = {n: o for o, n in V1NAMES}

    def rename(x):
        if isinstance(x, dict):
            return {old.get(k, k): rename(v) for k, v in x.items()}
        if isinstance(x, list):
            return [rename(v) for v in x]
        return old.get(x, x) if isinstance(x, str) else x
    q = copy.deepcopy(p)
    for m in p["spectrumModels"]:
        s = q[m]
        del s["stages"]
        r = s.pop("redshiftSolver", {})
        s.update(r)          # "method" and the method sections
        if "lineMeasSolver" in s:
            x = s.pop("lineMeasSolver")
            s["linemeas_method"] = x["method"]
            s["lineMeasSolve"] = x["lineMeasSolve"]
        if "reliabilitySolver" in s:
            x = s.pop("reliabilitySolver")
            s["enable_reliability"] = True
            s["reliabilityModel"] = x["deepLearningSolver"]["reliabilityModel"]
        else:
            s["enable_reliability"] = False
            s["reliabilityModel"] = "unused.h5"
    return rename(q)


def version2(p):
    q = {"version": 2}
    for k, v in copy.deepcopy(p).items():
        q["spectrumModel_" + k if k in p["spectrumModels"] else k] = v
    return q


def tree(c):
    """abstract configuration -> parameters; a field "" is absent"""
    def put(d, k, v):
        if v != "":
            d[k] = {"T": True, "F": False}.get(v, v) if isinstance(v, str) else v
    p = {"spectrumModels": [m["m"] for m in c["models"]]}
    if c["photdir"]:
        p["photometryTransmissionDir"] = "dir"
    if c["photband"] >= 0:
        p["photometryBand"] = ["H", "J"][:c["photband"]]
    if c["ebmv"]:
        p["ebmv"] = {"start": 0, "step": 0.1, "count": 10}
    f = c["filters"]
    item = {"key": "Err", "instruction": "<", "value": 2}
    if f == "ok":
        p["filters"] = [item]
    elif f == "empty":
        p["filters"] = []
    elif f == "key":
        p["filters"] = [item, dict(item, key="zz")]
    elif f == "key1":
        p["filters"] = [dict(item, key="zz"), item]
    elif f == "keymid":
        p["filters"] = [dict(item, key="Wave"), dict(item, key="zz"), dict(item, key="Flux"), item]
    elif f == "missmid":
        p["filters"] = [item, {"instruction": "<", "value": 1}, item]
    elif f == "missing":
        p["filters"] = [item, {"key": "Err", "value": 1}]
    elif f == "extra":
        p["filters"] = [dict(item, more=1)]
    elif f == "dict":
        p["filters"] = item
    if c["addcol"]:
        p["additionalCols"] = ["zz"]
    if c["lsf"] != "":
        p["lsf"] = {}
        put(p["lsf"], "lsfType", c["lsf"])
        for k in ("width", "resolution", "sourceSize"):
            if k in c["lsfhas"]:
                p["lsf"][k] = 1.0
        if "file" in c["lsfhas"]:
            p["lsf"]["gaussianVariableWidthFileName"] = "f"
    for key, dest in (("cr", p), ("tcr", None)):
        if c[key]["on"]:
            d = {}
            put(d, "method", c[key]["method"])
            put(d, "medianKernelWidth", c[key]["width"])
            put(d, "medianEvenReflection", c[key]["refl"])
            if dest is None:
                p["templateCatalog"] = {"continuumRemoval": d}
            else:
                dest["continuumRemoval"] = d
    for m in c["models"]:
        s = {"stages": m["stages"]}
        put(s, "templateDir", m["tdir"])
        put(s, "lineMeasDzHalf", m["dz"])
        put(s, "lineMeasRedshiftStep", m["dstep"])
        if m["rel"]:
            s["reliabilitySolver"] = {"method": "deepLearningSolver",
                                      "deepLearningSolver": {"reliabilityModel": "m.h5"}}
        if m["lmeas"]["on"]:
            x = m["lmeas"]
            lm = {}
            for k in ("lineRatioType", "rules", "fittingMethod", "velocityFit"):
                put(lm, k, x[k])
            for k in x["vel"]:
                lm[k] = 100
            if x["lya"]:
                lm["lya"] = {}
                put(lm["lya"], "profile", x["profile"])
                if x["asym"]:
                    lm["lya"]["asymProfile"] = {}
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": lm}}
        r = {}
        put(r, "method", m["rs"])
        if m["tf"]["on"]:
            x = m["tf"]
            r["templateFittingSolve"] = d = {}
            put(d, "ismFit", x["ism"])
            put(d, "fftProcessing", x["fft"])
            put(d, "enablePhotometry", x["phot"])
            put(d, "igmFit", x["igm"])
            if x["weight"]:
                d["photometry"] = {"weight": 1.0}
            if x["comp"] != "":
                d["spectrum"] = {"component": x["comp"]}
        if m["tc"]["on"]:
            x = m["tc"]
            r["tplCombinationSolve"] = d = {}
            put(d, "ismFit", x["ism"])
            put(d, "enablePhotometry", x["phot"])
            if x["comp"] != "":
                d["spectrum"] = {"component": x["comp"]}
        if m["lm"]["on"]:
            x = m["lm"]
            d = {}
            for k in ("lineRatioType", "rules", "improveBalmerFit", "tplRatioCatalog", "tplRatioIsmFit",
                      "continuumComponent", "continuumReestimation", "fittingMethod", "skipSecondPass",
                      "useLogLambdaSampling", "enablePhotometry"):
                put(d, k, x[k])
            if x["cfit"]:
                d["continuumFit"] = {}
                put(d["continuumFit"], "fftProcessing", x["cfft"])
                put(d["continuumFit"], "ismFit", x["cism"])
            if x["p2"]:
                d["secondPass"] = {}
                put(d["secondPass"], "continuumFit", x["p2fit"])
            if x["p1"]:
                d["firstPass"] = {}
                put(d["firstPass"], "tplRatioIsmFit", x["p1ism"])
                if x["p1n"]:
                    d["firstPass"]["extremaCount"] = x["p1n"]
            if x["n"]:
                d["extremaCount"] = x["n"]
            if x["lya"]:
                d["lya"] = {}
                put(d["lya"], "profile", x["profile"])
                if x["asym"]:
                    d["lya"]["asymProfile"] = {}
            r["lineModelSolve"] = {"lineModel": d}
        if m["rs"] != "" or r:
            s["redshiftSolver"] = r
        p[m["m"]] = s
    return p


def get(d, *path):
    """a value as the specification writes it: "-" when absent"""
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return "-"
        d = d[k]
    if isinstance(d, bool):
        return "T" if d else "F"
    if isinstance(d, dict):
        return "{}"
    return str(d)


def strip(p):
    """the parameters without those that normalisation may write"""
    p = copy.deepcopy(p)
    p.pop("continuumRemoval", None)
    p.pop("templateCatalog", None)
    for m in p["spectrumModels"]:
        s = p[m].get("redshiftSolver", {})
        lm = s.get("lineModelSolve", {}).get("lineModel", {})
        lm.pop("continuumReestimation", None)
        lm.pop("useLogLambdaSampling", None)
        if not lm:
            s.pop("lineModelSolve", None)
        if not s:
            p[m].pop("redshiftSolver", None)
    return p


class Driver:
    def reset(self):
        self.results = []

    def shown(self, p, models):
        cr = ["continuumRemoval"], ["templateCatalog", "continuumRemoval"]
        out = {}
        for name, path in zip(("cr", "tcr"), cr):
            out[name] = {"method": get(p, *path, "method"),
                         "width": get(p, *path, "medianKernelWidth"),
                         "refl": get(p, *path, "medianEvenReflection")}
        lm = "redshiftSolver", "lineModelSolve", "lineModel"
        out["models"] = [{"reest": get(p, m, *lm, "continuumReestimation"),
                          "ulls": get(p, m, *lm, "useLogLambdaSampling")} for m in models]
        return out

    def step(self, op):
        if op["a"] == "check":
            p = tree(op["c"])
            q = copy.deepcopy(p)
            zflag.resetFlag()
            RAISED.clear()
            msg = ""
            try:
                ParametersChecker(p).custom_check()
                ret = "ok"
            except Exception as e:
                ret = pydrv.code_name(e.getErrorCode()) if hasattr(e, "getErrorCode") \
                    else "foreign:" + type(e).__name__
                msg = e.getMessage() if hasattr(e, "getMessage") else str(e)
            warns = list(RAISED)
            mask = zflag.getBitMask()
            zflag.resetFlag()
            return {"ret": ret, "msg": msg, "warns": warns, "same": p == q,
                    "mask": str(mask.name) if mask else ""}
        if op["a"] == "extend":
            p = tree(op["c"])
            q = copy.deepcopy(p)
            e, ret = pydrv.attempt(lambda: ParametersExtender().extend(p))
            if ret != "ok":
                return {"ret": ret}
            ee, ret2 = pydrv.attempt(lambda: ParametersExtender().extend(e))
            kept = strip(e) == strip(q)
            self.results.append(e)
            models = [m["m"] for m in op["c"]["models"]]
            return {"ret": ret, "input_unchanged": p == q, "idempotent": ee == e,
                    "kept": kept, "out": self.shown(e, models)}
        if op["a"] == "version":
            p = tree(op["c"])
            for m in p["spectrumModels"]:
                p[m].setdefault("stages", [])
            want = strip(p)
            raw = (version1 if op["v"] == 1 else version2)(p)
            if op["v"] == 1:
                for m in p["spectrumModels"]:
                    if not p[m]["stages"]:
                        del want[m]["stages"]
                raw["extra"] = filler(0)
                want["extra"] = filler(1)
            before = copy.deepcopy(raw)
            e, ret = pydrv.attempt(lambda: Parameters(raw, make_checks=False).parameters)
            if ret != "ok":
                return {"ret": ret}
            got = strip(e)
            got.pop("version", None)
            models = [m["m"] for m in op["c"]["models"]]
            return {"ret": ret, "input_unchanged": raw == before, "kept": got == want,
                    "out": self.shown(e, models)}
        if op["a"] == "poke":
            # the caller edits one of the results
            p = self.results[op["i"] - 1]
            d = p["templateCatalog"]["continuumRemoval"] if op["t"] else p["continuumRemoval"]
            d["medianKernelWidth"] = op["v"]
            return {"ret": "ok", "all": [
                {"cr": get(r, "continuumRemoval", "medianKernelWidth"),
                 "tcr": get(r, "templateCatalog", "continuumRemoval", "medianKernelWidth")}
                for r in self.results]}
        raise ValueError(op["a"])


if __name__ == "__main__":
    pydrv.main(Driver())
