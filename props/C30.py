from core import Component

BUILD = "lib"


def spectrum(rng, off=None):
    n = rng.choice([3, 4, 5, 6])
    lo, hi = (0, n - 1) if rng.random() < .6 else sorted(rng.sample(range(n), 2))
    return dict(off=rng.randrange(-2, 9) if off is None else off,
                f=[rng.choice([0, 1, 2, 3, -1]) for _ in range(n)],
                s=[rng.choice([1, 1, 2]) for _ in range(n)], lo=lo, hi=hi)


def bins(rng):
    b, m = [], rng.randrange(-4, 9)
    if rng.random() < .5:
        m = -9
    for _ in range(rng.choice([2, 2, 3, 3, 4])):
        o = rng.choice([-1, 0, 1])
        if b and m == b[-1]["m"] and o <= b[-1]["o"]:
            m += 1
        b.append(dict(m=m, o=o))
        m += rng.choice([0, 1, 2, 3, 6])
    return b


def fit(rng):
    ext, dust = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0)])
    return dict(a="fit", t=rng.choice([1, 2]), ext=ext, dust=dust,
                ie=rng.choice([-1, -1, 0, 1, 2]) if dust else -1,
                im=rng.choice([-1, -1, -1, 0, 1, 2]) if ext else -1,
                thr=rng.choice([0, 0, 0, 1, -1]), ov=rng.choice([1, 2, 4, 0]), mask=0)


def one(rng, kind):
    fft = kind == "fft"
    small = kind == "comb"
    off = rng.randrange(-2, 9)
    sps = [spectrum(rng, off)]
    if small:
        s = sps[0]
        s["f"] = [min(x, 2) for x in s["f"]]
        if s["hi"] - s["lo"] < 2 or rng.random() < .5:
            s["lo"], s["hi"] = 0, len(s["f"]) - 1
    if kind == "basic" and rng.random() < .35:
        sps.append(spectrum(rng, off + rng.choice([-3, 0, 4, 8])))
    if fft:
        step = rng.choice([1, 1, 2])
        s = sps[0]
        if s["hi"] - s["lo"] < step:
            s["lo"], s["hi"] = 0, len(s["f"]) - 1
    h = [dict(a="spec", sp=sps), dict(a="igm", b=bins(rng), top=2 if kind == "comb" else 4)]
    k0, n = off + rng.randrange(-4, 5), rng.choice([2, 3, 5, 8]) if fft else rng.choice([1, 2, 3])
    k1 = k0 + 4 * n
    first = min(s["off"] + s["lo"] for s in sps)
    last = max(s["off"] + s["hi"] for s in sps)

    def tpl(i):
        if fft:
            lo = first - k1 - rng.choice([0, 0, 1, 3])
            hi = last - k0 + 4 + rng.choice([0, 0, 2])
        else:
            lo = first - k0 + rng.choice([-8, -8, -8, -3, 0] if small else [-8, -8, -8, -3, 0, 1])
            hi = last - k0 + rng.choice([2, 2, 0] if small else [2, 2, 0, -1])
            hi = max(hi, lo + 1)
        return dict(a="tpl", n=i, lo=lo, t=[rng.choice([1, 1, 2, 0] if small else [1, 2, 3] if fft or rng.random() < .8 else [0, 1, 2])
                                            for _ in range(hi - lo + 1)])
    h += [tpl(1), tpl(2)]

    def grid(a):
        o = dict(a=a, k0=k0 + rng.choice([0, 0, -1, 2]), n=n, step=rng.choice([1, 1, step]) if fft else rng.choice([1, 1, 2, 3]))
        if a == "oper":
            o["kind"] = kind
        return o
    h.append(grid("oper"))
    for _ in range(rng.choice([3, 5, 8])):
        x = rng.random()
        if x < .65 or (fft and x < .8):
            o = fit(rng)
            if small:
                o["ie"] = min(o["ie"], 1)
            if kind == "basic":
                o["mask"] = rng.choice([0, 0, 0, 1, 2, 3])
            h.append(o)
        elif x < .8:
            e = rng.choice([-1, 0, 1] if small else [-1, 0, 1, 2])
            h.append(dict(a="model", t=rng.choice([1, 2]), k=k0 + rng.randrange(n), e=e,
                          m=rng.choice([-1, 0, 1, 2]), amp=rng.choice([1, 3]), ov=rng.choice([0, 2]),
                          s=rng.randrange(len(sps)) + 1))
        elif x < .9:
            h.append(grid("reds"))
        elif x < .95:
            h.append(tpl(rng.choice([1, 2])))
        else:
            h.append(dict(a="igm", b=bins(rng), top=2 if kind == "comb" else 4))
    return h


def gen(kind):
    def histories(rng, tier):
        return [one(rng, kind) for _ in range(200 if tier == "quick" else 6000)]
    return histories


F = ("{<<1, 1, -1, -1, 0, 1, 0>>, <<1, 0, -1, -1, 0, 2, 0>>, <<0, 1, -1, -1, 1, 1, 0>>, "
     "<<0, 0, -1, -1, -1, 4, 0>>, <<1, 1, 1, 0, 0, 1, 0>>}")
C = {"Flux": "{-1, 2}", "Npix": "2", "Tpl": "{1, 2}", "Kinds": '{"basic"}', "Flags": F, "Los": "{-1, 1}"}
T = dict(C, Los="{-1, 0, 1}", Kinds='{"basic", "fft"}', Flux="{-1, 1, 3}", Npix="3")
M = dict(C, Flux="{-1, 2}", Npix="3", Tpl="{1, 2}", Kinds='{"comb"}', Los="{-1}")
COMPONENTS = [
    Component("basic", "TplFit", "tplfit.cpp", mc=C, tier_mc=T, max_edges=(500, 20000), histories=gen("basic"), maxlen=12, pack=25),
    Component("fft", "TplFit", "tplfit.cpp", consts=C, histories=gen("fft"), maxlen=12),
    Component("comb", "TplFit", "tplfit.cpp", mc=M, max_edges=(500, 20000), histories=gen("comb"), maxlen=12, pack=25),
]
