from core import Component

BUILD = "lib"


def grid(p):
    if p["c"] == -1:
        return list(range(p["lo"], p["hi"] + 1, p["step"]))
    left = list(range(p["c"], p["lo"] - 1, -p["step"]))[::-1]
    return left + list(range(p["c"], p["hi"] + 1, p["step"]))[1:]


def insert(g, sub):
    if sub[-1] < g[0] or sub[0] > g[-1]:
        return None
    if not [z for z in g if sub[0] <= z <= sub[-1]]:
        return None
    low = [z for z in sub if z <= g[0]]
    if low:
        sub = [g[0]] + sub[len(low):]
    high = [z for z in sub if z >= g[-1]]
    if high:
        sub = sub[:len(sub) - len(high)] + [g[-1]]
    return [z for z in g if z < sub[0]] + sub + [z for z in g if z > sub[-1]]


def full(ps):
    g = grid(ps[0])
    for p in ps[1:]:
        g = insert(g, grid(p)) if g is not None else None
    return g


def histories(rng, tier):
    out = []
    for _ in range(3000 if tier == "quick" else 80000):
        fine = rng.choice([1, 1, 2, 3])
        step = fine * rng.choice([1, 2, 3, 4, 5, 8])
        lo = rng.randint(1, 30)
        hi = lo + step * rng.choice([1, 2, 3, 5, 8, 15])
        if rng.random() < .15:
            hi += rng.randint(1, step)
        ps = [{"lo": lo, "hi": hi, "step": step, "c": -1}]
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            half = rng.choice([1, 2, 4, 6, 10, 20])
            c = rng.choice([rng.randint(lo, hi), lo + step * rng.randint(0, (hi - lo) // step)])
            a, b = c - half, c + half
            if rng.random() < .8:
                a, b = max(a, lo), min(b, hi)
            if a < 1:
                a = 1
            ps.append({"lo": a, "hi": b, "step": fine if rng.random() < .9 else rng.choice([1, 2, 3]), "c": c})
        log = rng.random() < .5
        g = full(ps)
        n = len(g) if g else 3
        v = [rng.randint(0, 40) * 100 for _ in range(n)]
        if rng.random() < .1:
            v = v[:-1] if rng.random() < .5 else v + [0]
        if rng.random() < .1 or not v:
            v = []
        h = [{"a": "new", "ps": ps, "v": v, "log": log}]
        if not g or (v and len(v) != len(g)):
            out.append(h)
            continue
        params, cur = ps, g
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(["convert", "convert", "extend", "valid"])
            if k == "convert":
                if len(cur) < 2:
                    continue
                f = rng.random() < .6
                h.append({"a": "convert", "fine": f})
                if len(params) == 1 or f and len({p["step"] for p in params[1:]}) > 1:
                    continue
                params = [dict(params[0], step=params[1]["step"] if f else params[0]["step"])]
                cur = grid(params[0])
            elif k == "extend":
                p = params[0]
                if (p["hi"] - p["lo"]) % p["step"] or any(q["lo"] < p["lo"] or q["hi"] > p["hi"] for q in params) \
                        or len(cur) < 2:
                    continue
                z = p["hi"] + rng.choice([-3, -1, 0, 1, 2, step, 3 * step + 1])
                h.append({"a": "extend", "z": z})
                if z > p["hi"]:
                    params = [dict(p, hi=z)] + params[1:]
                    cur = full(params)
            elif not log and len(cur) > 0:
                w = [rng.choice([0, 0, 1, 2, 5, 30]) for _ in cur]
                if rng.random() < .2:
                    w = [rng.randint(1, 9)] * len(cur)
                two = sum((cur[i + 1] - cur[i]) * (w[i] + w[i + 1]) for i in range(len(cur) - 1))
                if not any(w):
                    continue
                d = max(1, int(two / 2 * rng.choice([1, 1.05, .95, 1.2, .85, 3])))
                if abs(abs(two - 2 * d) * 10 - 2 * d) <= 2:
                    continue
                if rng.random() < .2:
                    w[rng.randrange(len(w))] = -1
                h.append({"a": "valid", "w": w, "d": d})
        out.append(h)
    return out


def P(lo, hi, step, c):
    return f"[lo |-> {lo}, hi |-> {hi}, step |-> {step}, c |-> {c}]"


COMPONENTS = [
    Component("pdfgrid", "PdfGrid", "pdfgrid.cpp",
              mc={"Bases": "{" + ", ".join([P(2, 10, 4, -1), P(2, 11, 3, -1), P(3, 12, 2, -1)]) + "}",
                  "Wins": "{" + ", ".join([P(3, 7, 1, 6), P(4, 10, 2, 6), P(2, 4, 1, 2), P(1, 4, 1, 2),
                                           P(8, 13, 1, 10), P(13, 14, 1, 13)]) + "}",
                  "Values": "{0, 300}", "MaxOps": "3"},
              num_sim=(0, 0), histories=histories, maxlen=(4, 4), max_edges=(20000, 300000)),
]
