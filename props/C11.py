from core import Component

BUILD = "py"


def random_tables(rng, tier):
    out = []
    for _ in range(150 if tier == "quick" else 2000):
        ops = []
        for _ in range(rng.randint(1, 4)):
            n = rng.randint(0, 8)
            ops.append({"a": "table", "rows": [
                {"waves": 2 * i, "fluxes": rng.choice([0, 1, 2, 3, 5, 9999, -3, -4]),
                 "errors": rng.choice([1, 2, 3, 4]), "flag": 2 * rng.randint(0, 15),
                 "other": 2 * rng.randint(0, 3)} for i in range(n)]})
            ops.append({"a": "none"})
            for _ in range(rng.randint(0, 4)):
                k = rng.choice(["Wave", "Flux", "Err", "waves", "fluxes", "errors", "flag", "other"])
                ints = k in ("flag", "other")
                i = rng.choice(["<", ">", "<=", ">=", "=", "in", "~in", "!="] + ["&", "~&", "0&", "^"] * ints * 2)
                v = [rng.choice([0, 2, 4, 6, 8]) for _ in range(rng.randint(0, 3))] if "in" in i \
                    else 2 * rng.randint(0, 15) if i in ("&", "~&", "0&", "^") else rng.randint(-4, 16)
                ops.append({"a": "add", "filter": {"key": k, "instruction": i, "value": v}})
                if rng.random() < 0.3:
                    ops.append({"a": "keep"})
            ops += [{"a": "keep"}, {"a": "keep"}]
        out.append(ops)
    return out


COMPONENTS = [
    Component("rules", "Filters", "filters.py", mc={"Mode": '"x"'}, sim={"Mode": '"x"'},
              consts={"Mode": '"x"'}, num_sim=(60, 600), sim_len=(30, 40), maxlen=4,
              histories=random_tables),
]
