from core import Component

BUILD = "lib"
MODELS = ["galaxy", "star", "qso", "other"]
METHODS = ["A", "B"]


def histories(rng, tier):
    out = []
    for _ in range(2500 if tier == "quick" else 50000):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        names = rng.sample(MODELS, n)
        models = [{"name": m, "method": rng.choice(METHODS + ["A"] if rng.random() < .85 else [""])}
                  for m in names]
        h = [{"a": "params", "models": models, "base": rng.choice([0, 0, -1000000, 50000, -700, 700])}]
        for _ in range(rng.choice([1, 1, 2])):
            done = set()
            for m in rng.sample(models, n):
                if rng.random() < .8 and m["method"]:
                    done.add((m["name"], "redshiftSolver", m["method"]))
                if rng.random() < .15:
                    done.add((m["name"], rng.choice(["redshiftSolver", "lineMeasSolver"]), rng.choice(METHODS)))
            done = sorted(done)
            rng.shuffle(done)
            top = rng.choice([3, 20, 100000])
            for m, st, me in done:
                w = rng.choice([rng.randint(1, top), rng.randint(1, top), rng.randint(1, top), 0, -1])
                h.append({"a": "put", "name": m, "stage": st, "method": me, "w": w})
            h += [{"a": "classify"}, {"a": "next"}]
        out.append(h)
    return out


COMPONENTS = [
    Component("classification", "Classification", "classification.cpp",
              mc={"Models": '{"galaxy", "star"}', "Methods": '{"A"}',
                  "Weights": "{0, -1, 1, 3}", "MaxOps": "4"},
              consts={"Models": '{"galaxy", "star", "qso", "other"}', "Methods": '{"A", "B"}'},
              num_sim=(0, 0), histories=histories, maxlen=(16, 16), max_edges=(20000, 300000)),
]
