from core import Component

BUILD = "lib"
TEXTS = ["", "a", "50%d %s done", "two  words ", "Info: x", "@ y", "x" * 3000, "h\u00e9", "tab\there"]


def histories(rng, tier):
    """longer histories over more handlers than the table holds"""
    out = []
    for _ in range(400 if tier == "quick" else 8000):
        live, h = {}, []
        many = rng.random() < .5
        quiet = rng.random() < .5        # no console: bursts allowed
        for _ in range(rng.choice([20, 40])):
            k = rng.random()
            free = [str(i) for i in range(1, 13) if str(i) not in live]
            if (k < (.45 if many else .2) and free) or not live:
                i = rng.choice(free)
                kind = rng.choice(["file", "obj", "obj"] + ([] if quiet else ["console"]))
                live[i] = kind
                h.append({"a": "new", "h": i, "kind": kind})
            elif k < .55 and rng.random() < (.2 if many else .6):
                i = rng.choice(sorted(live))
                del live[i]
                h.append({"a": "del", "h": i})
            elif k < .7:
                i = rng.choice(sorted(live))
                h.append({"a": "level", "h": i, "m": rng.choice([0, 59, 60, 61, 65, 66, 70, 71, 79, 80, 81, 90, 91, 100, -1])})
            elif k < .73:
                h.append({"a": "get", "h": rng.choice(sorted(live))})
            elif k < .76 and quiet:
                h.append({"a": "burst", "n": rng.choice([2, 4, 8]), "k": rng.choice([5, 30]),
                          "lvl": rng.choice(["info", "detail", "debug"])})
            else:
                lvl = rng.choice(["info", "detail", "debug", "warn", "error"])
                h.append({"a": "log", "lvl": lvl, "text": rng.choice(TEXTS),
                          "ts": lvl in ("warn", "error") or rng.random() < .5})
        out.append(h)
    return out


C = {"Ids": '{"1", "2"}', "Kinds": '{"file", "obj", "console"}', "Levels": "{65, 80, 81}",
     "Texts": '{"a"}', "MaxLive": "2", "MaxThreads": "0"}
COMPONENTS = [
    Component("handlers", "LogHandlers", "loghandlers.cpp", mc=C,
              tier_mc=dict(C, Levels="{60, 65, 66, 80, 81}", Ids='{"1", "2", "3"}', MaxLive="3", Kinds='{"file", "obj"}'),
              sim=dict(C, Ids="{" + ", ".join('"%d"' % i for i in range(1, 12)) + "}", Kinds='{"file", "obj"}',
                       Levels="{0, 60, 65, 66, 70, 80, 90, 91}", Texts='{"", "a %s"}', MaxLive="11", MaxThreads="4"),
              histories=histories, num_sim=(150, 2000), sim_len=(40, 60), maxlen=(6, 8), max_edges=(8000, 80000)),
]
