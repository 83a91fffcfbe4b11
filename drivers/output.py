"""C28: the real output classes and HDF5 writer over a scripted result store."""
import json
import os
import tempfile

import h5py
import numpy as np
import pydrv
import pylibamazed.redshift as red
from pylibamazed.Exception import APIException, AmzException
from pylibamazed.H5Writer import H5Writer
from pylibamazed.OutputSpecifications import ResultsSpecifications
from pylibamazed.Parameters import Parameters
from pylibamazed.ResultStoreOutput import ResultStoreOutput

METHOD = {"lm": "lineModelSolve", "lmtpl": "lineModelSolve", "tf": "templateFittingSolve",
          "tc": "tplCombinationSolve"}


def missing(what):
    raise APIException(red.ErrorCode.UNKNOWN_ATTRIBUTE, "no " + what)


def native(v):
    k = v["k"]
    if k == "f":
        return float(v["v"][0])
    if k == "i":
        return int(v["v"][0])
    if k == "s":
        return v["v"][0]
    items = v["v"]
    if k == "F":
        return red.TFloat64List([float(x) for x in items])
    if k == "I":
        return red.TInt32List([int(x) for x in items])
    return red.TStringList(items)


def text(x):
    if isinstance(x, bytes):
        return x.decode()
    return "%.12g" % x if isinstance(x, (float, np.floating)) else str(x)


def canon(x):
    """a reported value as the specification writes it"""
    if x is None:
        return {"k": "none", "v": []}
    if isinstance(x, (list, tuple, np.ndarray)) or hasattr(x, "to_numpy"):
        a = x.to_numpy() if hasattr(x, "to_numpy") else np.asarray(x)
        if len(a) == 0:
            return {"k": "E", "v": []}
        k = {"f": "F", "i": "I", "u": "I"}.get(a.dtype.kind, "S")
        return {"k": k, "v": [text(v) for v in a]}
    if isinstance(x, (bool, np.bool_)):
        return {"k": "b", "v": [str(x)]}
    if isinstance(x, (float, np.floating)):
        return {"k": "f", "v": [text(x)]}
    if isinstance(x, (int, np.integer)):
        return {"k": "i", "v": [text(x)]}
    if isinstance(x, (str, bytes)):
        return {"k": "s", "v": [text(x)]}
    return {"k": type(x).__name__, "v": []}


class Obj:
    pass


def build(attrs):
    o = Obj()
    for a in attrs:
        if a["m"] == "map":
            if a["map"] and a["map"][0]["v"]["k"] in "FIS":
                val = red.TMapTFloat64List({e["n"]: native(e["v"]) for e in a["map"]})
            else:
                val = red.TMapFloat64({e["n"]: native(e["v"]) for e in a["map"]})
        else:
            val = native(a["v"])
        t, path = o, a["p"].split(".")
        for p in path[:-1]:
            if not hasattr(t, p):
                setattr(t, p, Obj())
            t = getattr(t, p)
        setattr(t, path[-1], val)
    return o


class Store:
    def __init__(self):
        self.glob, self.cand = {}, {}

    def key(self, o, s, m, n):
        for x in (o, s, m, n):
            if not isinstance(x, str):
                raise TypeError("not a string")
        return ".".join(x for x in (o, s, m, n) if x)

    def find(self, o, s, m, n):
        k = self.key(o, s, m, n)
        return self.glob[k] if k in self.glob else missing(k)

    def HasDataset(self, o, s, m, n):
        return self.key(o, s, m, n) in self.glob

    def HasCandidateDataset(self, o, s, m, n, ds):
        k = self.key(o, s, m, n)
        return k in self.cand and ds in self.cand[k]["ds"]

    def GetGlobalResultType(self, o, s, m, n):
        return self.find(o, s, m, n)[0]

    def GetCandidateResultType(self, o, s, m, n, ds):
        k = self.key(o, s, m, n)
        if k not in self.cand or ds not in self.cand[k]["ds"]:
            missing(k)
        return self.cand[k]["ds"][ds]["type"]

    def of(self, o, s, m, n, kind, rest):
        """the getter of one result type"""
        if rest:
            ds, rank = rest[:2]
            k = self.key(o, s, m, n)
            if k not in self.cand or ds not in self.cand[k]["ds"]:
                missing(k)
            d = self.cand[k]["ds"][ds]
            if d["type"] != kind:
                raise RuntimeError("wrong getter")
            if rank is None or rank < 0 or rank >= self.cand[k]["n"]:
                missing("rank")
            first = len(rest) > 2 and rest[2]
            return d["fp" if first else "obj"][rank]
        t, obj = self.find(o, s, m, n)
        if t != kind:
            raise RuntimeError("wrong getter")
        return obj

    def __getattr__(self, name):
        if not name.startswith("Get"):
            raise AttributeError(name)
        for c in "CT":
            if c + name[3:] in ("CFlagLogResult", "CClassificationResult", "CLogZPdfResult", "CLineModelSolution",
                                "TLineModelResult", "TFittedTpl", "CModelSpectrumResult", "TOtherResult"):
                return lambda o, s, m, n, *rest: self.of(o, s, m, n, c + name[3:], rest)
        raise AttributeError(name)

    def getNbRedshiftCandidates(self, o, s, m):
        k = self.key(o, s, m, "extrema_results")
        return self.cand[k]["n"] if k in self.cand else missing(k)


def params(op):
    p = {"version": 2, "spectrumModels": [c["name"] for c in op["models"]],
         "lambdaRange": {o: [4000, 6000] for o in op["obs"]} if op["obs"] != [""] else [4000, 6000],
         "photometryBand": op["bands"]}
    for c in op["models"]:
        s = {"stages": []}
        if c["rs"]:
            s["stages"].append("redshiftSolver")
            m = METHOD[c["rs"]]
            s["redshiftSolver"] = {"method": m, m: {}}
            if m == "lineModelSolve":
                s["redshiftSolver"][m]["lineModel"] = {
                    "lineRatioType": "tplRatio" if c["rs"] == "lmtpl" else "rules", "skipSecondPass": c["skip"]}
        if c["lm"]:
            s["stages"].append("lineMeasSolver")
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {}}}
        if c["rel"]:
            s["stages"].append("reliabilitySolver")
            s["reliabilitySolver"] = {"method": "deepLearningSolver",
                                      "deepLearningSolver": {"reliabilityModel": "x"}}
        p[c["name"]] = s
    return p


PRE = {"": "", "obj": "<ObjectType>", "method": "<MethodType>", "band": "<BandName>", "obs": "<ObsID>"}
HOOK = {"": "", "obj": "[object_type]", "band": "[band_name]", "obs": "[obs_id]"}


def table(rows):
    f = tempfile.NamedTemporaryFile("w", suffix=".csv", delete=False, dir=os.environ.get("VERIF_SCRATCH"))
    f.write("name\tdataset\textended_results\tlevel\tOperatorResult_name\tResultStore_key\thdf5_type\n")
    for r in rows:
        f.write("\t".join([PRE[r["pre"]] + r["n"], r["ds"] + ("<ObsID>" if r["obs"] else ""), str(r["x"]), r["l"],
                           r["path"] + HOOK[r["hook"]], r["key"], "f8"]) + "\n")
    f.close()
    return f.name


def tree(node, path, out):
    for k, v in node.attrs.items():
        out.append({"p": path + "@" + k, "v": canon(v)})
    for k, v in node.items():
        q = path + "/" + k
        if isinstance(v, h5py.Group):
            out.append({"p": q, "v": {"k": "group", "v": []}})
            tree(v, q, out)
        else:
            data = v[()]
            for c in data.dtype.names:
                out.append({"p": q + ":" + c, "v": canon([text(x) for x in data[c]]
                                                         if data[c].dtype.kind == "S" else data[c])})


def guarded(f):
    if os.environ.get("DBG"):
        def g(f=f):
            try:
                return f()
            except Exception:
                import traceback
                traceback.print_exc()
                raise
        v, r = pydrv.attempt(g)
    else:
        v, r = pydrv.attempt(f)
    return v, "ok" if r == "ok" else "error"


class Driver:
    def reset(self):
        self.out = None

    def step(self, op):
        return getattr(self, "do_" + op["a"])(op)

    def do_new(self, op):
        self.store = Store()
        self.out = ResultStoreOutput(self.store, Parameters(params(op), make_checks=False), auto_load=False,
                                     extended_results=op["ext"])
        if not op["real"]:
            name = table(op["rows"])
            self.out.results_specifications = ResultsSpecifications(name)
            os.unlink(name)
        return {"ret": "ok"}

    def do_put(self, op):
        self.store.glob[self.store.key(op["obj"], op["stage"], op["method"], op["key"])] = \
            (op["type"], build(op["attrs"]))
        return {"ret": "ok"}

    def do_cand(self, op):
        k = self.store.key(op["obj"], "redshiftSolver", op["method"], "extrema_results")
        self.store.glob[k] = ("TExtrema", Obj())
        self.store.cand[k] = {"n": op["n"], "ds": {
            d["ds"]: {"type": d["type"], "obj": [build(a) for a in d["ranks"]],
                      "fp": [build(a) for a in d["fp"]]} for d in op["sets"]}}
        return {"ret": "ok"}

    def do_side(self, op):
        """what the subtype and reliability stages write themselves"""
        if op["sub"]:
            self.out.object_results[op["obj"]]["model_parameters"] = [{"SubType": v} for v in op["sub"]]
        if op["rel"]:
            self.out.object_results[op["obj"]]["reliability"] = {"Reliability": op["rel"]}
        return {"ret": "ok"}

    def do_error(self, op):
        e = AmzException(getattr(red.ErrorCode, op["code"]).value, op["message"], "/".join(op["path"]), op["method"],
                         op["line"])
        _, r = guarded(lambda: self.out.store_error(e, op["obj"] or None, op["stage"]))
        return {"ret": r, "errors": self.errors()}

    def errors(self):
        return sorted(({"n": n, "code": e["code"], "message": e["message"], "line": e["line"], "file": e["filename"],
                        "method": e["method"]} for n, e in self.out.errors.items()), key=lambda e: e["n"])

    def do_load(self, op):
        _, r = guarded(self.out.load_all)
        return {"ret": r, "res": self.results()}

    def do_root(self, op):
        _, r = guarded(self.out.load_root)
        return {"ret": r, "res": self.results()}

    def results(self):
        """everything loaded, one entry per attribute"""
        o, out = self.out, []
        for ds in o.get_available_datasets("root"):
            out.append({"p": "/" + ds, "v": {"k": "group", "v": []}})
            for n, v in o.get_dataset(None, ds).items():
                out.append({"p": "/" + ds + "@" + n, "v": canon(v)})
        for m in o.object_types:
            for ds in o.get_available_datasets("object", m):
                out.append({"p": m + "/" + ds, "v": {"k": "group", "v": []}})
                for n, v in o.get_dataset(m, ds).items():
                    out.append({"p": m + "/" + ds + "@" + n, "v": canon(v)})
            for ds in o.get_available_datasets("candidate", m):
                for rank in range(o.get_nb_candidates(m)):
                    p = "%s/%s#%d" % (m, ds, rank)
                    out.append({"p": p, "v": {"k": "group", "v": []}})
                    for n, v in o.get_dataset(m, ds, rank).items():
                        out.append({"p": p + "@" + n, "v": canon(v)})
        return sorted(out, key=lambda e: e["p"])

    def do_write(self, op):
        with h5py.File("out.h5", mode="w", driver="core", backing_store=False) as f:
            _, r = guarded(lambda: H5Writer(self.out).write_hdf5(f, op["id"]))
            out = []
            if r == "ok":
                tree(f, "", out)
        return {"ret": r, "h5": sorted(out, key=lambda e: e["p"])}

    def do_get(self, op):
        rank = None if op["rank"] < 0 else op["rank"]
        v, r = guarded(lambda: self.out.get_attribute(op["obj"] or None, op["ds"], op["n"], rank))
        h, rh = guarded(lambda: self.out.has_attribute(op["obj"] or None, op["ds"], op["n"], rank))
        return {"ret": r, "v": canon(v), "has": "error" if rh != "ok" else ("yes" if h else "no")}

    def do_short(self, op):
        v, r = guarded(lambda: self.out.get_attribute_short(".".join(op["parts"]), {e["n"]: int(e["id"]) for e in op["lines"]}))
        return {"ret": r, "v": canon(v)}

    def do_several(self, op):
        self.out.spectrum_id = op["id"]
        v, r = guarded(lambda: self.out.get_attributes(op["flat"], {e["n"]: int(e["id"]) for e in op["lines"]}))
        return {"ret": r, "got": sorted(({"p": k, "v": canon(x)} for k, x in (v or {}).items()),
                                        key=lambda e: e["p"])}

    def do_query(self, op):
        """sizes and listings of one model"""
        o, m = self.out, op["obj"]
        size = {}
        r = "ok"

        def f():
            return {"objects": sorted(o.get_available_datasets("object", m)),
                    "candidates": sorted(o.get_available_datasets("candidate", m)),
                    "root": sorted(o.get_available_datasets("root")), "nb": o.get_nb_candidates(m),
                    "has": "yes" if o.has_dataset(m, op["ds"]) else "no"}
        v, r = guarded(f)
        size, rs = guarded(lambda: o.get_dataset_size(m, op["ds"], None if op["rank"] < 0 else op["rank"]))
        v = v or {}
        v.update(ret=r, size=int(size) if rs == "ok" else -1)
        return v


pydrv.main(Driver())
