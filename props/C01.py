from core import Component

BUILD = "py"
STAGES = ["redshiftSolver", "subClassifSolver", "reliabilitySolver",
          "linemeas_catalog_load", "lineMeasSolver"]


def cfg_of(rng, names):
    out = []
    for m in names:
        rs = rng.choice(["none", "lm", "lmtpl", "lmtpl", "tf", "tc"])
        lmeas = rng.random() < 0.6
        cat = lmeas and rng.random() < (0.5 if rs == "none" else 0.1)
        rel = "off" if rs == "none" else rng.choice(["off", "on", "on", "no"])
        out.append({"m": m, "rs": rs, "lmeas": lmeas, "cat": cat, "rel": rel})
    if rng.random() < 0.7:
        # mostly coherent configurations
        if any(c["cat"] for c in out):
            for c in out:
                if c["rs"] in ("lm", "lmtpl"):
                    c["lmeas"] = c["cat"] = False
    return out


def run_of(rng, cfg):
    keys = [c["m"] + "/" + s for c in cfg for s in STAGES]
    keys += ["classification/classification"]
    plan = []
    for k in keys:
        f = "ok" if rng.random() < 0.75 else rng.choice(["amz", "cpp", "py"])
        w = [b for b in (0, 1, 7, 17) if rng.random() < 0.2] \
            if not k.endswith(("subClassifSolver", "reliabilitySolver", "_load")) else []
        if f != "ok" or w:
            plan.append({"s": k, "f": f, "w": w})
    if rng.random() < 0.1:
        plan.append({"s": "/load_result_store", "f": rng.choice(["amz", "py"]), "w": []})
    init = "ok" if rng.random() < 0.8 else rng.choice(["amz", "cpp", "py", "nan", "nocat"])
    return {"a": "run", "k": rng.choice([1, 2, 3]), "init": init,
            "initw": [b for b in (2, 5) if rng.random() < 0.3], "plan": plan}


def history(rng, news, runs):
    h = []
    for _ in range(news):
        names = ["galaxy", "star", "qso"]
        rng.shuffle(names)
        c = cfg_of(rng, names[:rng.choice([1, 2, 2, 3])])
        h.append({"a": "new", "cfg": c, "ctxw": [3] if rng.random() < 0.3 else []})
        cat = any(x["cat"] for x in c)
        if cat and any(x["lmeas"] and x["rs"] in ("lm", "lmtpl") for x in c):
            continue
        h += [run_of(rng, c) for _ in range(runs)]
    return h


def histories(rng, tier):
    return [history(rng, 1, 1) for _ in range(700 if tier == "quick" else 12000)]


CONSTS = {"Models": '{"galaxy", "star"}', "MaxModels": "2",
          "Solvers": '{"none", "lm", "lmtpl", "tf", "tc"}',
          "Rels": '{"off", "on", "no"}', "Faults": '{"amz", "cpp", "py"}',
          "InitFaults": '{"ok", "amz", "cpp", "py", "nan", "nocat"}',
          "MaxRuns": "1", "MaxNews": "1"}
GALAXY = ["lm", "lmfft", "lmbad", "tf", "ncbad", "co", "fft"]
STAR = ["tf", "ncbad", "cobad", "allbad", "tfbad", "tcncbad", "tcnc", "nc", "all", "fftnone", "fft"]


def pairs(rng, tier):
    """whole pipelines with a model of each kind, in both orders, twice"""
    cfgs = ["%s=%s,%s=%s" % x for g in GALAXY for k in STAR
            for x in (("star", k, "galaxy", g), ("galaxy", g, "star", k))]
    specs = ["base", "noisy", "log1", "short", "nan"]
    if tier == "quick":
        # what can leave something behind first
        first = [c for c in cfgs if c.split(",")[0].endswith(("bad", "none"))]
        cfgs = rng.sample(first, 10) + rng.sample(cfgs, 6)
    out = []
    for c in cfgs:
        out.append([{"a": "new", "cfg": c}] + [{"a": "run", "s": rng.choice(specs)}
                                               for _ in range(1 if rng.random() < .6 else 2)])
    return out


COMPONENTS = [
    Component("flow", "ProcessFlow", "flow.py",
              mc=dict(CONSTS, Models='{"galaxy"}', MaxModels="1"),
              tier_mc=dict(CONSTS, MaxModels="2", Rels='{"on", "no"}',
                           Solvers='{"none", "lmtpl", "tf"}', Faults='{"amz"}'),
              sim=CONSTS, histories=histories, max_edges=(1000, 20000)),
    Component("models", "Replay", "replay.py", mc=None,
              consts={"Cfgs": '{}', "Specs": '{}', "MaxRuns": "2"}, histories=pairs, maxlen=3),
]
