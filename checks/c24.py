import models as M

VIEWS = ["ab", "ba", "bc", "cb", "ca", "ac"]
U = 1000000


def style(rng, conj):
    v = rng.choice(VIEWS) if rng.random() > 0.05 else rng.choice(["aa", "xy", "abc", ""])
    o = dict(view=v, conj=rng.random() < 0.5, arrows=rng.random() < 0.6,
             cut2=rng.choice([0, 1, 2, 3, 4, 5, 9, 10]), orbs=rng.random() < 0.8,
             cells=rng.random() < 0.7, col=rng.random() < 0.2, omit=[])
    if rng.random() < 0.3:                  # defaults; energies are whole numbers
        dflt = dict(view=("view", "ab"), conj=("with_conj", conj),
                    arrows=("hop_as_arrows", True), cut2=("hop_eng_cutoff", 1),
                    orbs=("with_orbitals", True), cells=("with_cells", True))
        for k in rng.sample(sorted(dflt), rng.randint(1, 6)):
            o[k] = dflt[k][1]
            o["omit"].append(dflt[k][0])
    return o


def vis(rng, hassp):
    o = dict(op="vis", kind=rng.choice(["bands", "bands", "xy", "dos", "phases", "vector",
                                        "scatter", "wfc", "image", "image"]))
    n = rng.randint(3, 6)
    x = sorted(rng.sample(range(0, 40), n))
    if o["kind"] == "bands":
        x[0] = 0
        idx = sorted(rng.sample(range(n), rng.randint(2, n)))
        nb = rng.randint(1, 4)
        o.update(x=x, y=[[rng.randint(-9, 9) for _ in range(nb)] for _ in x], idx=idx,
                 lab=[f"K{i}" for i in idx])
    elif o["kind"] in ("xy", "dos"):
        o.update(x=x, y=[rng.randint(-9, 9) for _ in x], lim=[])
        if rng.random() < 0.5:
            o["lim"] = [rng.randint(-5, 3), rng.randint(4, 40), rng.randint(-5, 0),
                        rng.randint(1, 9)]
    elif o["kind"] == "phases":
        nb = rng.randint(1, 3)
        o.update(x=x, y=[[rng.randint(-3, 3) for _ in range(nb)] for _ in x],
                 scatter=rng.random() < 0.5, polar=rng.random() < 0.4)
    else:
        o.update(model=rng.random() < 0.6, who=rng.choice(["pc", "sp"]) if hassp else "pc",
                 colorbar=rng.random() < 0.3)
        if o["kind"] == "vector":
            o.update({c: [rng.randint(-9, 9) for _ in x] for c in "xyuv"})
        elif o["kind"] == "scatter":
            o.update({c: [rng.randint(-9, 9) for _ in x] for c in "xyz"})
        elif o["kind"] == "wfc":
            o.update(z=[rng.randint(0, 9) for _ in range(rng.randint(2, 5))])
        else:
            w, h = rng.randint(2, 8), rng.randint(2, 8)
            x0, y0 = rng.randint(-5, 5), rng.randint(-5, 5)
            pts = {(x0, y0), (x0 + w, y0), (x0, y0 + h), (x0 + w, y0 + h)}
            for _ in range(4):
                pts.add((x0 + rng.randint(0, w), y0 + rng.randint(0, h)))
            pts = sorted(pts)
            rng.shuffle(pts)
            cf = [rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-9, 9)]
            o.update(x=[p[0] for p in pts], y=[p[1] for p in pts], cf=cf,
                     z=[cf[0] * p[0] + cf[1] * p[1] + cf[2] for p in pts],
                     grid=[rng.randint(3, 7), rng.randint(3, 7)])
    return o


def cases(ctx):
    rng = ctx.rng("rep")
    out = []
    for n in range(ctx.n(110, 1500)):
        d = M.gen_model(rng, maxorb=18, pm=rng.choice([0, 0, 1, 2]))
        if rng.random() < 0.1:
            d["pcs"].append(dict(M.gen_pc(rng), hop=[]))
        else:
            d["pcs"].append(M.gen_pc(rng))
        if rng.random() < 0.05:
            d["pcs"][-1].update(orb=[], hop=[])
        if rng.random() < 0.3 and d["pcs"][-1]["hop"]:     # terms on one side only
            for t in d["pcs"][-1]["hop"]:
                t[0] = 1
        free = len(d["pcs"])
        ops = []
        for _ in range(9):
            r = rng.random()
            p = rng.randint(1, free)
            pc = d["pcs"][p - 1]
            if r < 0.2:
                kn, kd = M.gen_k(rng, [1])
                ops.append(dict(op="hk", p=p, kn=kn, kd=kd,
                                conv=rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.3
                                else rng.choice([1, 2])))
            elif r < 0.27:
                ops.append(dict(op="print", p=p))
            elif r < 0.42:
                ops.append(dict(op="pcplot", p=p, **style(rng, True)))
            elif r < 0.54:
                ops.append(dict(op="scplot", s=rng.randint(1, len(d["scs"])), **style(rng, False)))
            elif r < 0.64:
                ops.append(dict(op="spplot", **style(rng, False)))
            elif r < 0.74 and d["pcs"][-1]["orb"]:
                no = len(d["pcs"][-1]["orb"])
                if rng.random() < 0.5:
                    t = M.gen_hops(rng, no, 1)[0]
                    ops.append(dict(op="edit", p=free, what="hop", t=t))
                else:
                    ops.append(dict(op="edit", p=free, what="orb", i=rng.randrange(no),
                                    e=rng.randint(-4, 4)))
            else:
                ops.append(vis(rng, True))
        out.append(dict(id=f"r{n}", cfg=d, ops=ops))
    return out


def cube_op(rng):
    lat = rng.choice([[[4, 0, 0], [0, 4, 0], [0, 0, 5]], [[4, 0, 0], [2, 4, 0], [0, 0, 6]],
                      [[3, 1, 0], [-1, 3, 1], [0, 1, 4]]])
    n = rng.choice([1, 1, 2, 2, 3])
    kind = rng.choice(["real", "real", "imag", "abs2"])
    org = [0, 0, 0] if kind != "abs2" else rng.choice([[0, 0, 0], [1, -1, 2]])
    orb = [dict(p=[4 * rng.randint(-3, 9) for _ in range(3)], e=0, lab="x") for _ in range(n)]
    if n > 1 and rng.random() < 0.5:
        orb[1]["p"] = list(orb[0]["p"])         # two orbitals of one atom
    dim = rng.choice([[], [], [], [2, 1, 1], [1, 1, 2], [1, 2, 1]]) if n == 2 else []
    no = n * (dim[0] * dim[1] * dim[2] if dim else 1)
    qn = []
    for i in range(no):
        nn = rng.randint(1, 4)
        ll = rng.randrange(nn)
        z = rng.randint(1, 2) if nn == 1 else rng.randint(1, 3)
        qn.append([z, nn, ll, rng.randint(-ll, ll)])
        if i % n == 1 and orb[1]["p"] == orb[0]["p"]:
            qn[-1][0] = qn[-2][0]
    o = dict(op="cube", cell=dict(lat=lat, org=org, orb=orb), dim=dim, qn=qn,
             wfc=[[rng.randint(-2, 2), rng.randint(-2, 2)] for _ in range(no)],
             kind=kind, named=rng.random() < 0.5, conv=0, kn=[0, 0, 0], kd=0, rnmax=[],
             org6=[], size6=[], every=1)
    if all(w == [0, 0] for w in o["wfc"]):
        o["wfc"][0] = [1, 2]
    if not dim:
        o["conv"] = rng.choice([0, 1, 2])
        if rng.random() < 0.7:
            o["kn"], o["kd"] = M.gen_k(rng, [1])
        if rng.random() < 0.6:
            o["rnmax"] = rng.choice([[1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 0, 1], [0, 0, 0]])
    if rng.random() < 0.7:
        num = [rng.randint(2, 4) for _ in range(3)]
        o["res6"] = rng.choice([500000, 750000, 1000000, 640000])
        o["size6"] = [x * o["res6"] + o["res6"] * rng.randint(2, 8) // 10 for x in num]
        if rng.random() < 0.75:
            o["org6"] = [250000 * rng.randint(-6, 6) for _ in range(3)]
            if rng.random() < 0.4:              # a grid point on the nucleus
                p = orb[0]["p"]
                o["org6"] = [round(U * (sum(p[r] * lat[r][c] for r in range(3)) / 48
                                        + org[c])) - rng.randint(0, 1) * o["res6"]
                             for c in range(3)]
    else:
        o["res6"] = rng.choice([6000000, 7000000])
        if n > 1 and not dim and rng.random() < 0.6:    # wider than the smallest box
            o["cell"]["lat"] = [[rng.randint(15, 22), 0, 0], [0, rng.randint(15, 22), 0],
                                [0, 0, rng.randint(15, 22)]]
            o["cell"]["org"] = [0, 0, 0]
            o["rnmax"] = []
            for i in range(2):
                orb[i]["p"] = [4 * (rng.randint(0, 2) + 10 * i)
                               for _ in range(3)]
            if orb[1]["p"] == orb[0]["p"]:
                qn[1][0] = qn[0][0]
        if rng.random() < 0.5:
            o["org6"] = [250000 * rng.randint(-6, 6) for _ in range(3)]
        num = [2, 2, 2]
    o["every"] = max(1, num[0] * num[1] * num[2] // 12)
    if o["every"] % 2 == 0 and o["every"] > 1:
        o["every"] += 1
    return o


def cubes(ctx):
    rng = ctx.rng("cube")
    return [dict(id=f"w{n}", cfg=dict(pcs=[], scs=[], ihs=[], sp=dict(sc=[], ih=[])),
                 ops=[cube_op(rng) for _ in range(2)]) for n in range(ctx.n(120, 1500))]


def plan(ctx):
    return dict(
        mc=[("MCReport", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
             "CONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"), "report")],
        groups=[dict(driver="d_rep", module="ReportTrace", cases=cases(ctx), shards=8),
                dict(driver="d_rep", tag="c", module="ReportTrace", cases=cubes(ctx), shards=8)],
        assumptions=["figures are read from the artists of the axes, not from pixels",
                     "atomic orbitals up to n = 4, l = 3 with Z up to 3"])
