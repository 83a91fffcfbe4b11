"""ProcessFlow.run with the stage solvers replaced by scripted ones; reader,
context initialisation, scopes, warnings, error recording and result loading
are the real ones."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import pydrv
import pylibamazed.redshift as red
from pylibamazed.AbstractOutput import AbstractOutput
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader
from pylibamazed.CalibrationLibrary import CalibrationLibrary
from pylibamazed.Exception import APIException
from pylibamazed.Parameters import Parameters
from pylibamazed.ProcessFlow import ProcessFlow
from pylibamazed.Reliability import ReliabilitySolve
from pylibamazed.ScopeManager import push_scope
from pylibamazed.SubType import SubType

ctx = red.CProcessFlowContext.GetInstance()
zflag = red.CFlagWarning.GetInstance()
MEIKSIN_Z = [1.5, 2.0]
TEST = "/repo/pylibamazed/auxdir/pylibamazed/test/calibration"
RUN = {}          # what the scripted stages do and record
METHOD_OF = {"lm": "lineModelSolve", "lmtpl": "lineModelSolve",
             "tf": "templateFittingSolve", "tc": "tplCombinationSolve"}


def bits():
    m = zflag.getBitMask()
    m = getattr(m, "value", m)
    return [b for b in range(32) if m & (1 << b)]


def fail(kind, what):
    if kind == "ok":
        return
    if kind == "amz":
        raise APIException(red.ErrorCode.INVALID_PARAMETER, "injected " + what)
    if kind == "cpp":   # a library error
        ctx.GetResultStore().GetFlagLogResult("no", "no", "no", "no")
    raise ValueError("injected " + what)


def scope():
    st = ctx.m_ScopeStack
    return "/".join(st.at(i) for i in range(st.size()))


def stage(name, method, store):
    """what every scripted stage does; returns a per-stage token"""
    where = scope()
    model = where.split("/")[0]
    key = model + "/" + name
    ref = ""
    if name == "lineMeasSolver":
        ref = RUN["store"].Get_string(model + ".redshiftref")
    RUN["calls"].append({"stage": key, "method": method, "scope": where,
                         "flags": bits(), "ref": ref})
    plan = RUN["plan"].get(key, {"f": "ok", "w": []})
    if store:
        with push_scope(method, red.ScopeType.METHOD):
            try:
                for w in plan["w"]:
                    zflag.warning(red.WarningCode(1 << w), "w")
                fail(plan["f"], key)
            finally:
                ctx.GetResultStore().StoreScopedFlagResult("warningFlag")
                zflag.resetFlag()
    else:
        fail(plan["f"], key)
    return key


def solver(name, method):
    def Compute(self):
        stage(name, method, True)
    return Compute


red.CLineModelSolve.Compute = solver("redshiftSolver", "lineModelSolve")
red.CTemplateFittingSolve.Compute = solver("redshiftSolver", "templateFittingSolve")
red.CTplCombinationSolve.Compute = solver("redshiftSolver", "tplCombinationSolve")
red.CLineMeasSolve.Compute = solver("lineMeasSolver", "lineMeasSolve")
red.CClassificationSolve.Compute = solver("classification", "classification")


def rel(self, context):
    return stage("reliabilitySolver", "", False)


def sub(self, context):
    return [stage("subClassifSolver", "", False)]


ReliabilitySolve.Compute = rel
SubType.Compute = sub


def lmload(self, output, model):
    stage("linemeas_catalog_load", "", False)
    self.set_redshiftref(model, RUN["token"])


Parameters.load_linemeas_parameters_from_result_store = lmload
_load_store = red.CProcessFlowContext.LoadParameterStore


def load_store(self, js):
    RUN["store"] = _load_store(self, js)
    return RUN["store"]


red.CProcessFlowContext.LoadParameterStore = load_store
_load_object = AbstractOutput.load_object_level


def load_object_level(self, model):
    fail(RUN["plan"].get("/load_result_store", {"f": "ok"})["f"], "load")
    return _load_object(self, model)


AbstractOutput.load_object_level = load_object_level
_cal = {}


def load_all(self, calibs="all"):
    if not _cal:
        self.load_Meiksin()
        self.load_calzetti()
        _cal.update(m=self.meiksin, c=self.calzetti)
    self.meiksin, self.calzetti = _cal["m"], _cal["c"]
    self.templates_catalogs["all"] = red.CTemplateCatalog()
    for m in self.parameters.get_spectrum_models():
        for method in self.parameters.get_linemodel_methods(m):
            self.load_empty_line_catalog(m, method)
        if self.parameters.is_tplratio_catalog_needed(m):
            self.load_empty_line_ratio_catalog_list(m)
        if m in RUN["relmodels"]:
            self.reliability_models[m] = "nn"


CalibrationLibrary.load_all = load_all


class Reader(ASCIISpectrumReader):
    def init(self):
        for w in RUN["initw"]:
            zflag.warning(red.WarningCode(1 << w), "w")
        fail(RUN["init"] if RUN["init"] in ("amz", "cpp", "py") else "ok", "init")
        super().init()


def params(cfg):
    p = {"version": 2, "multiObsMethod": "", "lambdaRange": [4000, 6000],
         "airVacuumMethod": "", "autoCorrectInput": False, "smoothWidth": 0.0,
         "ebmv": {"start": 0, "step": 0.1, "count": 2},
         "templateCatalog": {"continuumRemoval": {"method": "zero"}},
         "continuumRemoval": {"method": "zero"},
         "lsf": {"lsfType": "gaussianConstantWidth", "width": 3.0},
         "spectrumModels": [c["m"] for c in cfg]}
    for c in cfg:
        s = {"redshiftRange": [0, 1], "redshiftStep": 0.1, "redshiftSampling": "log",
             "stages": []}
        if c["rs"] != "none":
            s["stages"].append("redshiftSolver")
            m = METHOD_OF[c["rs"]]
            s["redshiftSolver"] = {"method": m, m: {}}
            if m == "lineModelSolve":
                s["redshiftSolver"][m]["lineModel"] = {
                    "lineRatioType": "tplRatio" if c["rs"] == "lmtpl" else "rules",
                    "skipSecondPass": False, "continuumComponent": "noContinuum"}
        if c["lmeas"]:
            s["stages"].append("lineMeasSolver")
            s["lineMeasSolver"] = {"method": "lineMeasSolve",
                                   "lineMeasSolve": {"lineModel": {}}}
        if c["rel"] != "off":
            s["stages"].append("reliabilitySolver")
            s["reliabilitySolver"] = {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": "x"}}
        p[c["m"]] = s
    return p


class D:
    def reset(self):
        self.pf = None
        zflag.resetFlag()
        self.dir = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "flow")
        os.makedirs(self.dir, exist_ok=True)

    def step(self, op):
        if op["a"] == "new":
            return self.new(op)
        return self.run(op)

    def new(self, op):
        RUN["relmodels"] = [c["m"] for c in op["cfg"] if c["rel"] == "on"]
        config = {"calibration_dir": TEST, "extended_results": True}
        cat = [c["m"] for c in op["cfg"] if c["cat"]]
        if cat:
            config["linemeascatalog"] = {}
            config["linemeas_catalog_columns"] = {}
            for m in cat:
                f = os.path.join(self.dir, m + ".tsv")
                pd.DataFrame({"ProcessingID": ["t%d" % i for i in range(8)],
                              "z": [i / 8 for i in range(8)],
                              "va": [1.0] * 8, "ve": [2.0] * 8}).to_csv(f, sep="\t", index=False)
                config["linemeascatalog"][m] = f
                config["linemeas_catalog_columns"][m] = {
                    "Redshift": "z", "VelocityAbsorption": "va", "VelocityEmission": "ve"}

        def make():
            par = Parameters(params(op["cfg"]), make_checks=False)
            for w in op["ctxw"]:
                zflag.warning(red.WarningCode(1 << w), "w")
            return ProcessFlow(config, par)
        self.pf, ret = pydrv.attempt(make)
        if ret != "ok":
            zflag.resetFlag()
        return {"ret": ret, "depth": ctx.m_ScopeStack.size(), "flags": bits()}

    def run(self, op):
        pf = self.pf
        RUN.update(plan={p["s"]: p for p in op["plan"]}, init=op["init"],
                   initw=op["initw"], calls=[], token=op["k"] / 8)
        source = "t%d" % op["k"] if op["init"] != "nocat" else "absent"
        r = Reader("id", pf.parameters, pf.calibration_library, source)
        w = np.linspace(3900, 6100, 40)
        df = pd.DataFrame({"wave": w, "flux": np.ones(40) * (0 if op["init"] == "nan" else 1),
                           "err": np.ones(40)})
        r.load_all(df)
        rso, ret = pydrv.attempt(lambda: pf.run(r))
        o = {"ret": ret, "calls": RUN["calls"], "depth": ctx.m_ScopeStack.size(),
             "flags": bits(), "errors": {}, "injected": [], "warn": {}, "out": []}
        if ret == "ok":
            for k, e in sorted(rso.errors.items()):
                o["errors"][k] = e["code"]
                if os.environ.get("DBG"): print(k, e)
                if e["message"].startswith("injected "):
                    o["injected"].append(k + ":" + e["message"][9:])
            for ds in ("context_warningFlag", "init_warningFlag"):
                if ds in rso.root_results:
                    o["warn"][ds] = list(rso.root_results[ds].values())
            for m, r in rso.object_results.items():
                if r.get("warningFlag"):
                    for k, v in r["warningFlag"].items():
                        o["warn"][m + "/" + k] = [v]
                if "Reliability" in r.get("reliability", {}):
                    o["out"].append("rel:" + str(r["reliability"]["Reliability"]))
                for d in r.get("model_parameters", []):
                    o["out"].append("sub:" + str(d.get("SubType")))
            # the scoped warnings of the classification
            v, e = pydrv.attempt(lambda: ctx.GetResultStore().GetFlagLogResult(
                "classification", "classification", "classification", "warningFlag"))
            if e == "ok":
                o["warn"]["classification"] = [v.flagValue]
        o["out"].sort()
        return o


if __name__ == "__main__":
    pydrv.main(D())
