from core import Component

BUILD = "lib"


def mask(rng, n):
    p = rng.choice([.1, .5, .9, 1])
    return [int(rng.random() < p) for _ in range(n)]


def axis(rng, n):
    w, x = [], rng.choice([1, 5])
    for _ in range(n):
        w.append(x)
        x += rng.choice([1, 1, 2, 7])
    return w


def histories(rng, tier):
    out = []
    for _ in range(600 if tier == "quick" else 12000):
        size, h = [0, 0], []
        for _ in range(30):
            k, j = rng.choice([(1, 2), (2, 1), (1, 2), (1, 1)])
            n = size[2 - k] if rng.random() < .7 else rng.randrange(17)
            a = rng.choice(["new", "make", "copy", "set", "size", "and", "meet", "meet", "over", "ifrac",
                            "ifrac", "count", "range", "axfrac", "pick", "stats", "mstats"])
            o = {"a": a, "k": k}
            w = axis(rng, size[k - 1] if a == "axfrac" else n)
            b = rng.choice(w or [1]) + rng.choice([-9, 0, 0, 1])
            e = b + rng.choice([0, 1, 3, 10, 40])
            if a == "new":
                o["v"], size[k - 1] = mask(rng, n), n
            elif a == "make":
                o.update(n=n, d=rng.randrange(2))
                size[k - 1] = n
            elif a in ("copy", "and", "meet", "over", "ifrac"):
                o["j"] = j
                if a == "copy":
                    size[k - 1] = size[j - 1]
            elif a == "set":
                if not size[k - 1]:
                    continue
                o.update(i=rng.randrange(size[k - 1]) + 1, d=rng.randrange(2))
            elif a == "size":
                o["n"] = size[k - 1] = n
            elif a in ("range", "axfrac"):
                o.update(w=w, b=b, e=e)
                if a == "range":
                    size[k - 1] = n
            elif a == "pick":
                m = size[k - 1] if rng.random() < .8 else rng.randrange(17)
                o["v"] = [rng.randrange(50) for _ in range(m)]
                o["v"].sort()
            elif a in ("stats", "mstats"):
                if a == "mstats" and rng.random() < .8:
                    n = size[k - 1]
                if n == 0 or (a == "stats" and n < 2):    # a lone sample spans no range
                    continue
                o.update(f=[rng.randrange(10) for _ in range(n)], err=[rng.choice([1, 2]) for _ in range(n)])
                if a == "stats":
                    w = axis(rng, n)
                    b = rng.choice(w) + rng.choice([-1, 0, 0, 1])
                    e = rng.choice(w) + rng.choice([-1, 0, 0, 1])
                    o.update(w=w, b=min(b, e), e=max(b, e))
                    del o["k"]
            h.append(o)
        out.append(h)
    return out


C = {"Size": "3", "Axes": "{<<>>}", "Bounds": "{}", "Flux": "{}", "Acts": '{"sets"}'}
A = dict(C, Axes="{<<>>, <<2>>, <<2, 4>>, <<1, 2, 4>>, <<1, 3, 4>>}",
         Bounds="{p \\in (0..5) \\X (0..5) : p[1] <= p[2]}", Acts='{"axes"}')
S = dict(C, Axes="{<<2, 4>>, <<1, 2, 4>>}", Bounds=A["Bounds"], Flux="{0, 1, 3}", Acts='{"stats"}')
COMPONENTS = [
    Component("sets", "Masks", "masks.cpp", mc=C, tier_mc=dict(C, Size="4"), histories=histories, maxlen=12,
              max_edges=(12000, 100000), pack=25),
    Component("axes", "Masks", "masks.cpp", mc=A, maxlen=12, pack=25),
    Component("stats", "Masks", "masks.cpp", mc=S, tier_mc=dict(S, Flux="{0, 1, 2, 5}"), maxlen=12, pack=25, max_edges=(12000, 100000)),
]
