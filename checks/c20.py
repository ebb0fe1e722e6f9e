import models as M

TS = [2, 3, 4, 5, 6, 9, 10, 12]


def cz(rng, m=3000):
    return [rng.randint(-m, m), rng.randint(-m, m)]


def op(rng, kind):
    T = rng.choice(TS) if rng.random() < 0.85 else rng.choice([15, 18, 20, 30])
    o = dict(op=kind, T=T, spin=rng.random() < 0.4, dflt=rng.random() < 0.5)
    if kind in ("dos", "ldos"):
        o.update(w=rng.choice(["hann", "hann", "exp", "ten", "one", "lin"]),
                 corr=[cz(rng, 3000 if T < 15 else 600) for _ in range(T + 1)])
        if rng.random() < 0.5:
            o["corr"][0] = [1000, 0]
    elif kind == "ac":
        o.update(w=rng.choice(["exp", "exp", "hann", "lin"]),
                 beta=rng.choice([100000, 500000, 2000000, 38681740]),
                 corr=[[rng.randint(-3000, 3000) for _ in range(T)]
                       for _ in range(4)])
    elif kind == "dp":
        n = rng.randint(1, 3)
        o.update(w=rng.choice(["ten", "ten", "hann", "exp"]),
                 arr=rng.random() < 0.5,
                 qs=[[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)],
                 corr=[[rng.randint(-3000, 3000) for _ in range(T)]
                       for _ in range(n)])
    elif kind == "eps":
        n = rng.randint(1, 3)
        o.update(qs=[[rng.randint(-2, 2) for _ in range(3)] for _ in range(n)],
                 coul=rng.choice([1000000, 2500000]),
                 beps=rng.choice([1000000, 2000000, 3500000]),
                 dp=[[cz(rng) for _ in range(T)] for _ in range(n)])
    elif kind == "eps0":
        o.update(omi=[rng.randint(1, 9) for _ in range(T)],
                 beps=rng.choice([1000000, 2000000]),
                 ac=[[cz(rng) for _ in range(T)] for _ in range(4)])
    elif kind in ("dc", "diff"):
        if rng.random() < 0.4:
            T = o["T"] = rng.choice([2, 3, 4])
        lo = rng.randint(0, 2 * T - 1)
        hi = min(2 * T - 1, lo + rng.choice([-1, 0, 1, 2, 3]))
        if rng.random() < 0.1:
            lo, hi = 0, 2 * T - 1
        ne = max(0, hi - lo + 1)
        o.update(lo=lo, hi=hi, edge=T in (2, 3, 4) and rng.random() < 0.6, w=rng.choice(["exp", "exp", "hann", "one"]),
                 corr=[[[cz(rng) for _ in range(T)] for _ in range(ne)]
                       for _ in range(2)])
        if kind == "dc":
            o.update(wd=rng.choice(["hann", "one", "lin"]),
                     dcorr=[cz(rng, 1000 if T < 15 else 600) for _ in range(T)])
        else:
            del o["spin"]
    elif kind == "hall":
        k = rng.randint(2, 4) if rng.random() < 0.85 else rng.randint(5, 9)
        ne = rng.choice([2, 3, 4, 5, 6, 8, 9])
        mx = 1000 if ne <= 5 else 200
        o.update(ker=k, ne=ne, mu=[[cz(rng, mx) for _ in range(k)] for _ in range(k)],
                 beta=rng.choice([100000, 500000, 2000000, 38681740]),
                 ens=[rng.randint(-30, 30) * 250000 + 1
                      for _ in range(rng.randint(1, 3))],
                 unit=rng.choice(["h_bar", "h_bar", "h"] + (
                     ["e2"] if rng.random() < 0.2 else [])))
    elif kind == "win":
        o = dict(op=kind, T=T, w=rng.choice(["hann", "exp", "ten"]),
                 **{"is": [rng.randint(0, T) for _ in range(4)]})
    return o


KINDS = ["dos", "dos", "ldos", "ac", "ac", "dp", "dp", "eps", "eps0", "dc", "dc",
         "diff", "hall", "hall", "win"]


def cases(ctx):
    rng = ctx.rng("ana")
    out = []
    for n in range(ctx.n(400, 6000)):
        d = dict(lat=rng.choice(M.LATS), norb=rng.choice([1, 2, 3]),
                 ext=rng.choice([[1, 1, 1], [1, 1, 1], [2, 1, 1], [1, 2, 1],
                                 [2, 1, 2], [1, 1, 3]]),
                 dim=rng.choice([[3, 1, 1], [3, 2, 1], [4, 1, 2]]),
                 nsc=rng.choice([1, 1, 2]), dim_=rng.choice([2, 3]),
                 f=rng.choice([3, 5, 9, 12]))
        ops = []
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.3:
                ops.append(dict(op="rescale", f=rng.choice([3, 4, 7, 9, 12])))
            ops.append(op(rng, rng.choice(KINDS)))
        if rng.random() < 0.1:
            ops.append(dict(op="new", dim=rng.choice([1, 2, 3, 4]),
                            known=rng.random() < 0.7))
        out.append(dict(id="a%d" % n, cfg=d, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCAnalysis", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "analysis")],
        groups=[dict(driver="d_ana", module="AnalysisTrace", cases=cases(ctx),
                     shards=7)],
        assumptions=["numbers of time steps divide 180, so that all Fourier phases "
                     "are exact"])
