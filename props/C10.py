from core import Component

BUILD = "py"


def sessions(rng, tier):
    out = []
    for _ in range(1200 if tier == "quick" else 20000):
        multi = rng.choice(["", "merge", "merge", "full", "full"])
        names = [""] if multi == "" else rng.sample(["a", "b", "c", ""], rng.randint(1, 3))
        if rng.random() < 0.04:
            names = rng.sample(["a", "b", ""], rng.randint(1, 2))
        others = rng.sample(["flag", "q"], rng.randint(0, 2))
        filters = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            k = rng.choice(["Wave", "Flux", "Err", "waves", "errors"] + others * 2)
            if rng.random() < 0.02:
                k = rng.choice(["flag", "Error"])
            i = rng.choice(["<", ">", "<=", ">=", "=", "!=", "!=", ">="])
            v = 2 * (4000 + 10 * rng.randint(0, 9)) if k.lower().startswith("wave") else 2 * rng.randint(0, 4)
            filters.append({"key": k, "instruction": i if rng.random() < 0.98 else "~<", "value": v})
        cfg = {"multi": multi, "range": sorted(rng.sample(range(10), 2)),
               "ranges": {n: sorted(rng.sample(range(10), 2)) for n in names},
               "filters": filters, "lsf": rng.choice(["param", "spectrum"]),
               "air": rng.choice(["", "", "", "default", "morton2000", "edlen1953", "edlen1966", "peckreeder1972", "ciddor1996", "nope"]),
               "frame": rng.choice(["vacuum", "air"]), "others": others}
        if multi == "full":
            if rng.random() < 0.05:
                cfg["ranges"]["zz"] = [1, 2]
            if rng.random() < 0.05:
                del cfg["ranges"][names[0]]
        loads = []
        for n in names:
            k = rng.randint(1, 6) if rng.random() < 0.97 else 0
            waves = sorted(rng.sample(range(10), k))
            if rng.random() < 0.15:
                rng.shuffle(waves)
            if rng.random() < 0.1 and k > 1:
                waves[1] = waves[0]
            for c in ["wave", "flux", "err"] + others:
                v = waves if c == "wave" else [rng.randint(0, 4) for _ in range(k)]
                if rng.random() < 0.01:
                    v = v[1:]
                if rng.random() < 0.99:
                    loads.append({"a": "load", "col": c, "obs": n if rng.random() < 0.985 else rng.choice(["zz", "a", ""]), "v": v})
                if rng.random() < 0.03:
                    loads.append({"a": "load", "col": c, "obs": n, "v": v[::-1]})
            if rng.random() < 0.8:
                loads.append({"a": "lsf", "obs": n, "v": rng.randint(3, 9)})
        # an order of loading that keeps what is loaded last for a column last
        rng.shuffle(loads)
        ops = [{"a": "new", "cfg": cfg}]
        if rng.random() < 0.1:
            ops.append({"a": "read"})
        ops += loads + [{"a": "init"}, {"a": "read"}]
        out.append(ops)
    return out


COMPONENTS = [
    Component("sessions", "Reader", "reader.py", consts={"Mode": '"x"'}, mc={"Mode": '"x"'},
              histories=sessions, max_edges=(3000, 40000), maxlen=9),
]
