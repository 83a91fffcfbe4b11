import os

from core import Component

BUILD = "py"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
METHOD = {"lm": "lineModelSolve", "lmtpl": "lineModelSolve", "tf": "templateFittingSolve",
          "tc": "tplCombinationSolve", "": ""}
PRE = {"<ObjectType>": "obj", "<MethodType>": "method", "<BandName>": "band", "<ObsID>": "obs"}
HOOK = {"[object_type]": "obj", "[band_name]": "band", "[obs_id]": "obs"}
ERRORS = ["INTERNAL_ERROR", "INVALID_PARAMETER", "PYTHON_API_ERROR", "NO_CLASSIFICATION", "EXTERNAL_LIB_ERROR"]
MODEL_STAGES = ["redshiftSolver", "linemeas_catalog_load", "lineMeasSolver", "reliabilitySolver",
                "subClassifSolver"]


def strip(s, marks):
    for m, v in marks.items():
        if m in s:
            return s.replace(m, ""), v
    return s, ""


def real_rows():
    """the result table as published (spec/results_table.csv is its committed copy)"""
    out = []
    for ln in open(os.path.join(HERE, "spec", "results_table.csv")).read().splitlines()[1:]:
        n, ds, x, lvl, path, key, typ = (ln.split("\t") + [""] * 7)[:7]
        n, pre = strip(n, PRE)
        ds, obs = strip(ds, {"<ObsID>": "obs"})
        path, hook = strip(path, HOOK)
        out.append(({"n": n, "pre": pre, "ds": ds, "obs": obs != "", "x": x.upper() == "TRUE", "l": lvl,
                     "path": path, "hook": hook, "key": key, "fp": "Firstpass" in n}, typ))
    return out


ARRAYS = {"fitted_lines", "linemeas", "model", "continuum", "linemeas_model", "pdf", "firstpass_pdf",
          "modeltplCombination_parameters", "continuum_polynom", "line_mask", "linemeas_line_mask"}


class Gen:
    def __init__(self, rng):
        self.r, self.n = rng, 0

    def item(self, k):
        self.n += 1
        k = k.lower()
        return "%g" % (self.n + 0.5) if k == "f" else str(self.n) if k == "i" else "" if self.r.random() < 0.15 else "t%d" % self.n

    def val(self, k, n):
        if k in "fis":
            return {"k": k, "v": [self.item(k)]}
        return {"k": k, "v": [self.item(k) for _ in range(n)]}

    def table(self):
        """rows and, for each, the kind of its values (capital: one value per sample)"""
        r = self.r
        if r.random() < 0.25:
            return True, [(row, (k.upper() if row["ds"] in ARRAYS else k))
                          for row, t in real_rows() for k in [t[0].lower()]]
        rows = []

        def row(n, ds, lvl, kind, path, key, pre="", obs=False, hook="", x=None):
            rows.append(({"n": n, "pre": pre, "ds": ds, "obs": obs, "x": r.random() < 0.3 if x is None else x,
                          "l": lvl, "path": path, "hook": hook, "key": key, "fp": "Firstpass" in n}, kind))

        def some(ds, lvl, key, array, n, obs=False, path="p"):
            x = None if r.random() < 0.8 else True
            for i in range(n):
                k = r.choice("fis")
                hook = "obs" if obs and r.random() < 0.8 else ""
                if hook:
                    k = "f"
                row("%s_%d" % (ds, i), ds, lvl, k.upper() if array else k,
                    ("%s%d" if hook or r.random() < 0.7 else "in.%s%d") % (path + ds, i), key, obs=obs, hook=hook, x=x)

        row("Redshift", "model_parameters", "candidate", "f", "Redshift", "extrema_results", x=False)
        some("model_parameters", "candidate", "extrema_results", False, r.randint(0, 3))
        if r.random() < 0.6:
            row("SubType", "model_parameters", "candidate", "s", "", "", x=False)
        if r.random() < 0.6:
            row("FirstpassRedshift", "model_parameters", "candidate", "f", "Redshift", "extrema_results")
            row("Firstpassmodel_parameters_0", "model_parameters", "candidate", "f", "fp0", "extrema_results")
        if r.random() < 0.6:
            row("FittedLineID", "fitted_lines", "candidate", "I", "lineId", "extrema_results", x=False)
            some("fitted_lines", "candidate", "extrema_results", True, r.randint(1, 3))
        if r.random() < 0.5:
            some("model", "candidate", "extrema_results", True, r.randint(1, 2), obs=True)
        if r.random() < 0.4:
            row("PhotometricModel", "Photo", "candidate", "f", "phot", "extrema_results", pre="band", hook="band")
        if r.random() < 0.3:
            row("PerObs", "perobs", "candidate", "F", "perobs", "extrema_results", pre="obs", hook="obs")
        if r.random() < 0.6:
            some("pdf", "object", "pdf", True, r.randint(1, 2))
        if r.random() < 0.5:
            some("pdf_params", "object", "pdf", False, r.randint(1, 3), path="q")
        if r.random() < 0.6:
            row("LinemeasLineID", "linemeas", "object", "I", "lineId", "linemeas", x=False)
            some("linemeas", "object", "linemeas", True, r.randint(1, 3))
        if r.random() < 0.4:
            some("lmodel", "object", "lmodel", True, r.randint(1, 2), obs=True)
        if r.random() < 0.4:
            row("Reliability", "reliability", "object", "s", "rel", "solveResult", x=False)
        if r.random() < 0.7:
            row("WarningFlags", "warningFlag", "method", "i", "flagValue", "warningFlag", pre="method", x=False)
            if r.random() < 0.3:
                row("plain", "warningFlag", "method", "i", "other", "warningFlag")
        if r.random() < 0.7:
            row("Proba", "classification", "root", "f", "m_proba", "solveResult", pre="obj", hook="obj")
            row("Type", "classification", "root", "s", "m_TypeLabel", "solveResult", x=False)
            row("WarningFlags", "classification", "root", "i", "flagValue", "warningFlag")
        if r.random() < 0.6:
            row("ContextWarningFlags", "context_warningFlag", "root", "i", "flagValue", "context_warningFlag")
            row("InitWarningFlags", "init_warningFlag", "root", "i", "flagValue", "init_warningFlag")
        return False, rows

    def attrs(self, rows, sizes, full):
        """an object with (most of) the attributes the rows look for"""
        out, seen = [], set()
        for row, k in rows:
            if not row["path"] or row["path"] in seen or (not full and self.r.random() < 0.15):
                continue
            seen.add(row["path"])
            n = sizes.setdefault(row["ds"], self.r.choice([0, 1, 1, 2, 3, 5]))
            a = {"p": row["path"], "m": "", "v": {"k": "none", "v": []}, "map": []}
            if row["hook"]:
                names = {"obj": self.models, "band": self.bands, "obs": self.obs}[row["hook"]]
                names = [x for x in names if full or self.r.random() < 0.8] + \
                    (["other"] if self.r.random() < 0.2 else [])
                # the last choice: an array value per observation
                a["m"] = "map"
                a["map"] = [{"n": x, "v": self.val(k, n)} for x in names]
            else:
                a["v"] = self.val(k, n)
            out.append(a)
        return out

    def store(self, ops, models, rows, full):
        r = self.r

        def put(o, s, m, key, typ, rws, sizes=None):
            ops.append({"a": "put", "obj": o, "stage": s, "method": m, "key": key, "type": typ,
                        "attrs": self.attrs(rws, {} if sizes is None else sizes, full)})

        def maybe(p=0.75):
            return full or r.random() < p

        def by(key, lvl=None):
            return [x for x in rows if x[0]["key"] == key and (lvl is None or x[0]["l"] == lvl)]
        for key in ("context_warningFlag", "init_warningFlag"):
            if maybe():
                put("", "", "", key, "CFlagLogResult", by(key))
        if maybe():
            c = "classification"
            put(c, c, c, "solveResult", "CClassificationResult" if maybe(0.9) else "TOtherResult",
                [x for x in by("solveResult") if x[0]["ds"] == c])
            if maybe():
                put(c, c, c, "warningFlag", "CFlagLogResult", by("warningFlag", "root"))
        for c in models:
            solvers = ([("redshiftSolver", METHOD[c["rs"]])] if c["rs"] else []) + \
                ([("lineMeasSolver", "lineMeasSolve")] if c["lm"] else [])
            n = r.choice([0, 1, 1, 2, 2, 3, 5, 6])
            for st, m in solvers:
                if not maybe(0.85):
                    continue
                if maybe(0.8):
                    put(c["name"], st, m, "warningFlag", "CFlagLogResult", by("warningFlag", "method"))
                # the keys of object-level rows and the names of their datasets
                keys = {x[0]["key"] for x in rows if x[0]["l"] == "object"} - {"extrema_results"} | \
                    {x[0]["ds"] for x in rows if x[0]["l"] == "object"}
                for key in sorted(keys):
                    if key == "linemeas_line_mask" or key == "reliability" and r.random() < 0.8:
                        continue
                    mine = key.startswith("l") == (st == "lineMeasSolver")
                    if maybe(0.9) if mine else r.random() < 0.05:
                        put(c["name"], st, m, key, "CLogZPdfResult" if "pdf" in key else "CLineModelSolution",
                            by(key, "object"))
                if st == "redshiftSolver" and maybe(0.9):
                    sets = []
                    for ds in sorted({x[0]["ds"] for x in rows if x[0]["l"] == "candidate"}):
                        if not maybe(0.85):
                            continue
                        lm = ds in ("model_parameters", "fitted_lines") and m == "lineModelSolve"
                        mine = [x for x in rows if x[0]["ds"] == ds and x[0]["l"] == "candidate"]
                        sets.append({"ds": ds, "type": "TLineModelResult" if lm else
                                     "CModelSpectrumResult" if mine[0][0]["obs"] else "TOtherResult",
                                     "ranks": [self.attrs(mine, {}, full) for _ in range(n)],
                                     "fp": [self.attrs(mine, {}, full) for _ in range(n)]})
                    ops.append({"a": "cand", "obj": c["name"], "method": m, "n": n, "sets": sets})
            if r.random() < 0.5:
                ops.append({"a": "side", "obj": c["name"],
                            "sub": ["sub%d" % i for i in range(n)] if c["rs"] == "lmtpl" else [],
                            "rel": "rel" if c["rel"] and r.random() < 0.5 else ""})

    def ask(self, ops, models, rows, lines, loaded):
        r = self.r
        full = {"obj": "<ObjectType>", "method": "<MethodType>", "band": "<BandName>", "obs": "<ObsID>", "": ""}

        def where():
            row = r.choice(rows)[0]
            c = r.choice(models)
            n = row["n"]
            if row["pre"] == "obj":
                n = r.choice(models)["name"] + n
            if row["pre"] == "method":
                n = r.choice([METHOD[c["rs"]], "lineMeasSolve"]) + n
            if row["pre"] == "band":
                n = r.choice(self.bands or ["X"])
            if row["pre"] == "obs":
                n = r.choice(self.obs) + n
            ds = row["ds"] + (r.choice(self.obs) if row["obs"] else "")
            return row, c["name"], n, ds
        for _ in range(r.randint(2, 5)):
            row, m, n, ds = where()
            if not loaded:
                if row["obs"] or row["pre"] or row["hook"] or ds == "linemeas_line_mask":
                    continue
                c = [c for c in models if c["name"] == m][0]
                rank = -1
                if row["l"] == "candidate":
                    if not c["rs"] or not row["key"]:
                        continue
                    rank = r.randint(0, 3)
                elif row["l"] == "root":
                    m = ""
                elif not (c["lm"] if ds == "linemeas" else c["rs"]):
                    continue
                if r.random() < 0.1:
                    n = "nothing"
                ops.append({"a": "get", "obj": m, "ds": ds, "n": n, "rank": rank})
                continue
            x = r.random()
            rank = r.randint(0, 3) if row["l"] == "candidate" or r.random() < 0.1 else -1
            if r.random() < 0.1:
                rank = -1
            obj = "" if row["l"] == "root" and r.random() < 0.9 else "other" if r.random() < 0.05 else m
            if x < 0.35:
                ops.append({"a": "get", "obj": obj, "ds": ds if r.random() < 0.95 else "nothing",
                            "n": n if r.random() < 0.9 else "nothing", "rank": rank})
            elif x < 0.5:
                ops.append({"a": "query", "obj": m if r.random() < 0.95 else "other", "ds": ds, "rank": rank})
            elif x < 0.85:
                q = self.name(row, m, n, rank, lines)
                if "LogZPdf" not in n:
                    ops.append({"a": "short", "parts": q, "lines": lines})
            else:
                names = []
                for _ in range(r.randint(1, 5)):
                    row, m, n, ds = where()
                    names.append(self.name(row, m, n, r.choice([-1, 0, 1]), lines))
                flat = [".".join(q) for q in names]
                keep = [i for i, f in enumerate(flat) if f not in flat[:i]]
                ops.append({"a": "several", "id": "spc%d" % r.randint(0, 9), "names": [names[i] for i in keep],
                            "flat": [flat[i] for i in keep],
                            "pdf": ["LogZPdf" in flat[i] for i in keep], "lines": lines})

    def name(self, row, m, n, rank, lines):
        r = self.r
        if row["l"] == "root" and row["ds"] != "classification":
            return [n]
        if row["l"] == "root":
            return ["classification", n]
        if r.random() < 0.15:
            st = r.choice(MODEL_STAGES)
            f = r.choice(["code", "message", "line", "filename", "method"])
            return ["error", m, st, f] if r.random() < 0.7 else ["error", r.choice(["init", "classification"]), f, f]
        if row["ds"] in ("linemeas", "fitted_lines"):
            q = [m, r.choice(lines)["n"] if r.random() < 0.95 else "nothing", n]
        else:
            q = [m, n] if r.random() < 0.9 else [m, "nothing"]
        return q + ([str(max(rank, 0))] if row["l"] == "candidate" and rank >= 0 else [])

    def history(self):
        r = self.r
        self.n = 0
        real, rows = self.table()
        models = []
        for name in r.sample(["galaxy", "qso", "star"], r.randint(1, 3)):
            rs = r.choice(["lm", "lmtpl", "tf", "tc", "lm", ""])
            models.append({"name": name, "rs": rs, "lm": r.random() < 0.5 or not rs, "skip": rs in ("lm", "lmtpl")
                           and r.random() < 0.3, "rel": r.random() < 0.4})
        self.models = [c["name"] for c in models]
        self.obs = r.choice([[""], ["A"], ["A", "B"]])
        self.bands = r.choice([[], ["H"], ["H", "J"]])
        ops = [{"a": "new", "models": models, "obs": self.obs, "bands": self.bands, "ext": r.random() < 0.6,
                "real": real, "rows": [x[0] for x in rows]}]
        full = r.random() < 0.3
        self.store(ops, models, rows, full)
        # every line identifier that was generated, and one that was not
        ids = [i for o in ops if o["a"] in ("put", "cand") for i in find_ids(o)]
        lines = [{"n": "L%d" % i, "id": v} for i, v in enumerate(r.sample(ids, min(4, len(ids))))] + \
            [{"n": "Lx", "id": "999999"}]
        if r.random() < 0.3:
            self.ask(ops, models, rows, lines, False)
        x = r.random()
        init = False
        if x < 0.12:
            init = True
            self.error(ops, "", "init")
        elif x < 0.6:
            for _ in range(r.randint(1, 3)):
                m = r.choice(["", r.choice(self.models), r.choice(self.models)])
                self.error(ops, m, r.choice(MODEL_STAGES) if m else r.choice(["classification", "load_result_store"]))
        if r.random() < 0.1:
            ops.append({"a": "root"})
        ops.append({"a": "load"})
        ops.append({"a": "write", "id": "spectrum%d" % r.randint(0, 9)})
        if not init:
            self.ask(ops, models, rows, lines, True)
            if r.random() < 0.1:
                ops += [{"a": "load"}, {"a": "write", "id": "again"}]
        return ops

    def error(self, ops, m, st):
        r = self.r
        path = ["", "home", "src", "lib", "operator", "f.cpp"]
        ops.append({"a": "error", "obj": m, "stage": st, "code": r.choice(ERRORS),
                    "message": "failed %d: it's \"bad\"" % r.randint(0, 99), "line": r.randint(0, 500),
                    "path": path[-r.randint(1, 6):], "method": r.choice(["", "Compute"])})


def find_ids(op):
    attrs = op["attrs"] if op["a"] == "put" else [a for d in op["sets"] for q in d["ranks"] for a in q]
    return [v for a in attrs if a["p"] == "lineId" for v in a["v"]["v"]]


def histories(rng, tier):
    g = Gen(rng)
    return [g.history() for _ in range(600 if tier == "quick" else 6000)]


W = '{<<"g", "q">>, <<"g", "r">>}'
COMPONENTS = [
    Component("output", "Output", "output.py", mc={"Worlds": '{<<"g", "q">>}'}, tier_mc={"Worlds": W},
              histories=histories, maxlen=(4, 5), max_edges=(1200, 20000), trace_chunk=300),
]
