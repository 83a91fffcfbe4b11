"""C11: the filters, read from parameters or added one by one, on a table."""
import numpy as np
import pandas as pd
import pydrv
from pylibamazed.Filter import FilterList, SpectrumFilterItem
from pylibamazed.FilterLoader import ParamJsonFilterLoader
from pylibamazed.Parameters import Parameters
NAN = 9999
INTS = ("flag", "other")
COLS = ("waves", "fluxes", "errors", "flag", "other")


def num(v):
    if isinstance(v, list):
        return [num(x) for x in v]
    return v // 2 if v % 2 == 0 else v / 2


def back(v):
    if isinstance(v, (list, tuple)):
        return [back(x) for x in v]
    return NAN if v != v else int(round(2 * v))


def shown(fl):
    return [{"key": f.key, "instruction": f.instruction, "value": back(f.value)}
            for f in (fl.items if fl is not None else [])]


def rows(df):
    return [{c: back(v) for c, v in zip(COLS, r)} for r in df[list(COLS)].itertuples(index=False)]


def item(f):
    return {"key": f["key"], "instruction": f["instruction"], "value": num(f["value"])}


class Driver:
    def reset(self):
        self.df = self.table([])
        self.filters = FilterList()

    def table(self, rs):
        return pd.DataFrame({c: np.array([np.nan if r[c] == NAN else r[c] / 2 for r in rs],
                                         dtype=int if c in INTS else float) for c in COLS})

    def load(self, params):
        params.update({"multiObsMethod": "", "lambdaRange": [0, 10], "spectrumModels": []})
        return ParamJsonFilterLoader().get_filters(Parameters(params, make_checks=False))

    def step(self, op):
        a = op["a"]
        if a == "table":
            self.df = self.table(op["rows"])
            return {"ret": "ok", "rows": rows(self.df)}
        if a == "load":
            fl, ret = pydrv.attempt(lambda: self.load({"filters": [item(f) for f in op["filters"]]}))
            if ret == "ok":
                self.filters = fl
                return {"ret": ret, "filters": shown(fl)}
            return {"ret": ret}
        if a == "none":
            fl, ret = pydrv.attempt(lambda: self.load({}))
            self.filters = FilterList()
            return {"ret": ret, "filters": shown(fl)}
        if a == "add":
            f = item(op["filter"])
            x, ret = pydrv.attempt(lambda: SpectrumFilterItem(f["key"], f["instruction"], f["value"]))
            if ret == "ok":
                self.filters.add_filter(x)
                return {"ret": ret, "filters": shown(self.filters)}
            return {"ret": ret}
        if a == "keep":
            df, ret = pydrv.attempt(lambda: self.filters.apply(self.df))
            if ret != "ok":
                return {"ret": ret}
            self.df = df
            return {"ret": ret, "rows": rows(df)}
        raise ValueError(a)


if __name__ == "__main__":
    pydrv.main(Driver())
