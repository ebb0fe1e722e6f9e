import models as M

SMALL = [[1, 0], [-1, 0], [0, 1], [0, -2], [2, 0], [-2, 0], [1, 1], [1, -2], [-3, 0]]


def tiny_model(rng, big=False):
    """Sample of at most nine orbitals with small couplings."""
    two = rng.random() < 0.2
    n = 1 if two else rng.choice([1, 1, 2, 2, 3])
    if big:
        two, n = False, rng.choice([3, 4, 5])
    pc = M.gen_pc(rng, norb=n, nhop=0, emax=2)
    axis = rng.choice([(1, 0, 0), (0, 1, 0), (1, 1, 0)]) if n < 3 or big else (0, 0, 0)
    if n > 1 and rng.random() < 0.3:
        axis = (0, 0, 0)
    seen = set()
    for _ in range(rng.randint(1, 3) + 3 * big):
        rn = [rng.randint(-1, 1) * a for a in axis]
        i, j = rng.randrange(n), rng.randrange(n)
        key = (tuple(rn), i, j)
        if (i == j and rn == [0, 0, 0]) or key in seen:
            continue
        seen.add(key)
        seen.add((tuple(-x for x in rn), j, i))
        pc["hop"].append(rn + [i, j] + rng.choice(SMALL))
    if not pc["hop"]:
        return tiny_model(rng, big)
    pcs = [pc]
    dim = M.min_dims(pc)
    while dim[0] * dim[1] * dim[2] * n < 3:
        dim[rng.randrange(2)] += 1
    if n * dim[0] * dim[1] * dim[2] <= 4 and rng.random() < 0.5:
        dim[rng.randrange(2)] += 1
    pbc = [rng.random() < 0.6 for _ in range(3)]
    tot = n * dim[0] * dim[1] * dim[2]
    vac, mod = [], []
    if tot > 3 and rng.random() < 0.4:
        vac.append([rng.randrange(dim[0]), rng.randrange(dim[1]),
                    rng.randrange(dim[2]), rng.randrange(n)])
    tot -= len(vac)
    if rng.random() < 0.3 and tot > 1:
        i, j = rng.sample(range(tot), 2)
        mod.append([0, 0, 0, i, j] + rng.choice(SMALL))
    d = dict(pcs=pcs, scs=[dict(pc=1, dim=dim, pbc=pbc, vac=vac, mod=mod, pm=0)],
             ihs=[], sp=dict(sc=[1], ih=[]))
    if two and tot <= 5:
        d["pcs"].append(M.gen_pc(rng, norb=1, nhop=0, lat=pc["lat"],
                                 org=pc["org"], emax=2))
        d["pcs"][1]["hop"] = [[1, 0, 0, 0, 0] + rng.choice(SMALL)]
        d["scs"].append(dict(pc=2, dim=[3, 1, 1], pbc=[False] * 3, vac=[],
                             mod=[], pm=0))
        d["ihs"].append(dict(bra=1, ket=2, hop=[
            [0, 0, 0, rng.randrange(tot), rng.randrange(2)] + rng.choice(SMALL)]))
        d["sp"] = dict(sc=[1, 2], ih=[1])
        tot += 3
    return d, tot


def bound(d):
    """Upper bound of the spectral radius."""
    e = max(abs(o["e"]) for p in d["pcs"] for o in p["orb"])
    h = 0
    for p in d["pcs"]:
        h += sum(2 * (abs(t[5]) + abs(t[6])) for t in p["hop"])
    for s in d["scs"]:
        h += sum(abs(t[5]) + abs(t[6]) for t in s["mod"])
    for s in d["ihs"]:
        h += sum(abs(t[5]) + abs(t[6]) for t in s["hop"])
    return e + h


def calc(rng, kind, n, f, big=False):
    o = dict(op=kind, T=rng.randint(2, 9) if not big else rng.randint(10, 24), m=rng.choice([1, 1, 1, 2, 3]),
             seed=rng.choice([1, 1337, 42, 7]))
    if kind == "psi":
        o["m"] = 1
        o["h"] = rng.choice([2, 2, 2, 1, -2, 4, -1, 0])
        x = rng.random()
        if x < 0.3:
            o.update(T=rng.randint(2, 4), zero=rng.choice([[0, 1], [0, 2], [1, 1], [1, 2], [2, 1], [3, 1]]))
        elif x < 0.5:
            o.update(T=rng.randint(2, 4), dt6=rng.choice([1, 1000, 50000, 314159, 700000, 1900000, -333333,
                                                          -1234567, rng.randint(-2200000, 2200000)]))
        o["psi"] = [[rng.randint(-2, 2), rng.randint(-2, 2)] for _ in range(n)]
        o["psi"][rng.randrange(n)] = [1, 1]
        o["tl"] = [rng.randint(0, o["T"]) for _ in range(rng.randint(1, 4))]
        o["form"] = rng.choice(["array", "list"])
        if rng.random() < 0.1:
            o["tl"].append(rng.choice([-1, o["T"] + 1]))
    elif kind == "ldos":
        o["sites"] = rng.sample(range(n), rng.choice([1, 1, min(2, n), n]))
    elif kind in ("ac", "dyn"):
        o.update(beta=rng.choice([500000, 1000000, 2000000, 250000]),
                 mu=rng.choice([0, 0, 500000, -1250000]))
        if kind == "dyn":
            o.update(qd=1, form=rng.choice(["array", "list"]),
                     qs=[[rng.randint(-3, 3) for _ in range(3)]
                         for _ in range(rng.randint(1, 2))])
    elif kind == "qe":
        o["ens"] = [rng.randint(-4 * f, 4 * f) * 125000
                    for _ in range(rng.randint(1, 2))]
        o["T"] = rng.choice([3, 4, 5, 6, 8, 9])
        if big:
            o["T"] = rng.choice([10, 12, 15, 18])
    elif kind == "dc":
        o["T"] = rng.choice([3, 4, 5, 6, 8] if not big else [9, 10, 12])
        o["lo"] = rng.randint(0, 2 * o["T"] - 1)
        o["hi"] = min(2 * o["T"] - 1, o["lo"] + rng.choice([-1, 0, 1, 2]))
        o["edge"] = o["T"] in (3, 4, 8) and rng.random() < 0.6
    elif kind == "hall":
        o.update(ker=rng.choice([3, 4, 5, 6, 8, 9] if not big else [10, 12]), dir=rng.choice([1, 2]))
    elif kind == "hay":
        o.update(site=rng.randrange(n), delta=rng.choice([100000, 250000, 1000000]),
                 depth=rng.choice([n, n, n + 1, 2 * n, 40]), m=rng.choice([1, 1, 2]))
    if kind in ("psi", "dos", "ldos", "ac", "dyn", "dc", "qe") \
            and rng.random() < 0.04:
        o["bmax"] = 3
        if kind == "psi":
            o["h"] = 2
            o.pop("zero", 0)
            o.pop("dt6", 0)
    if kind not in ("hall", "hay") and rng.random() < 0.2:
        o["chk"] = rng.randint(1, 4)
    return o


KINDS = ["psi", "psi", "dos", "ldos", "ac", "ac", "dyn", "dyn", "qe", "dc", "hall",
         "hay"]


def cases(ctx):
    rng = ctx.rng("tbpm")
    out = []
    small = ctx.n(300, 4000)
    for k in range(small + ctx.n(60, 600)):
        big = k >= small
        while True:
            d, n = tiny_model(rng, big)
            f = 9 * -(-(bound(d) + 1) // 9)
            if 2 <= n <= (15 if big else 8) and f <= 45:
                break
        ops = [dict(op="rescale", f=f)]
        for _ in range(rng.randint(2, 3)):
            x = rng.random()
            if x < 0.15:
                g = rng.randrange(3)
                ops.append(dict(op="mag", g=g, b=rng.choice([2, 4, -2, 10, 36])))
            elif x < 0.25:
                f = min(45, 9 * (-(-(bound(d) + 1) // 9) + rng.randint(0, 2)))
                ops.append(dict(op="rescale", f=f))
            elif x < 0.3:
                ops += [dict(op="reset"), dict(op="rescale", f=f)]
            ops.append(calc(rng, rng.choice(KINDS), n, f, big))
        if rng.random() < 0.1:
            ops.append(dict(op="param", **rng.choice([
                dict(sec="generic", key="nr_ran", known=False),
                dict(sec="LDOS", key="sites", known=False),
                dict(sec="dckb", key="energy", known=False),
                dict(sec="dyn_pol", key="qpoints", known=False),
                dict(sec="generic", key="mu", known=True)])))
        if rng.random() < 0.1:
            ops.append(dict(op="cfg"))
        out.append(dict(id="t%d" % k, cfg=d, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCTbpm", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "tbpm")],
        groups=[dict(driver="d_tbpm", module="TbpmTrace", cases=cases(ctx),
                     shards=7)],
        assumptions=["random initial states are identified from the correlation "
                     "functions of probe samples of the same size and seed"])
