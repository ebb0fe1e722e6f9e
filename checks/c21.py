U = 144
LATS = [[[4, 0, 0], [0, 4, 0], [0, 0, 8]], [[4, 0, 0], [2, 4, 0], [0, 0, 16]],
        [[4, 1, 0], [-1, 5, 0], [1, 2, 8]], [[0, 4, 4], [4, 0, 4], [4, 4, 0]]]


def files(rng):
    nw = rng.choice([1, 1, 2, 2, 3]) if rng.random() < 0.92 else rng.randint(4, 6)
    mx = rng.choice([[1, 0, 0], [2, 0, 0], [1, 1, 0], [1, 1, 1], [2, 1, 1]])
    cand = [[a, b, c] for a in range(-mx[0], mx[0] + 1) for b in range(-mx[1], mx[1] + 1)
            for c in range(-mx[2], mx[2] + 1)]
    half = [r for r in cand if r > [0, 0, 0]]
    rng.shuffle(half)
    if len(half) > 7 and rng.random() < 0.5:
        half = half[:rng.choice([7, 7, 8])] if nw > 1 else half[:rng.choice([7, 8, 14, 15, 22])]
    elif nw > 1:
        half = half[:8]
    if nw > 3:
        half = half[:3]
    Rs = [[0, 0, 0]] + half + [[-x for x in r] for r in half]
    if rng.random() < 0.15 and len(Rs) > 1:
        Rs = Rs[1:]
    rng.shuffle(Rs)
    key = [tuple(r) for r in Rs]
    nds = rng.choice([[1], [1, 2], [1, 2, 3, 4]])
    nd, h, ws = {}, {}, {}
    trs = [[0, 0, 0]] + rng.choice([
        [], [[1, 0, 0], [-1, 0, 0]],
        [[mx[0] + 1, 0, 0], [-mx[0] - 1, 0, 0], [2, 0, 0], [0, 1, 0]],
        [[1, 0, 0], [0, -1, 0], [-1, 1, 0], [0, 0, 1]]])
    big = rng.choice([1, 60])
    for r in key:
        m = tuple(-x for x in r)
        if m in h:
            nd[r] = nd[m]
            h[r] = [[[h[m][j][i][0], -h[m][j][i][1]] for j in range(nw)] for i in range(nw)]
            ws[r] = [[[[-x for x in t] for t in ws[m][j][i]] for j in range(nw)]
                     for i in range(nw)]
            continue
        nd[r] = rng.choice(nds)
        z = lambda: [rng.choice([0, 1, 1, 1]) * rng.randint(-big, big) * U, rng.choice([0, 1]) * rng.randint(-big, big) * U]

        def tr():
            n = rng.choice([1, 1, 2, 2, 3, 4])
            t = rng.sample(trs, min(n, len(trs)))
            return t if rng.random() < 0.7 else [rng.choice(trs)]
        h[r] = [[z() for _ in range(nw)] for _ in range(nw)]
        ws[r] = [[tr() for _ in range(nw)] for _ in range(nw)]
        if r == (0, 0, 0):
            for i in range(nw):
                h[r][i][i][1] = 0
                ws[r][i][i] = [[0, 0, 0]]
                for j in range(i):
                    h[r][i][j] = [h[r][j][i][0], -h[r][j][i][1]]
                    ws[r][i][j] = [[-x for x in t] for t in ws[r][j][i]]
    unit = rng.choice(["", "Ang", "ang", "Bohr", "bohr"] * 5 + ["nm"])
    xyz = [["X", [rng.randint(-9, 9) * 125 for _ in range(3)]] for _ in range(nw)]
    for _ in range(rng.randint(0, 2)):
        xyz.insert(rng.choice([len(xyz), len(xyz), rng.randint(0, len(xyz))]),
                   [rng.choice(["C", "Mo", "Xe", "H"]), [rng.randint(-9, 9) * 100 for _ in range(3)]])
    return dict(nw=nw, R=Rs, nd=[nd[r] for r in key], h=[h[r] for r in key],
                ws=[ws[r] for r in key], unit=unit, xyz=xyz, lat=rng.choice(LATS),
                pre=rng.random() < 0.5, haswv=rng.random() < 0.9,
                seed=rng.choice(["wannier90", "abc"]))


def cases(ctx):
    rng = ctx.rng("wan")
    out = []
    for n in range(ctx.n(300, 4000)):
        F = files(rng)
        ops = []
        for _ in range(rng.randint(1, 3)):
            d = rng.random() < 0.3
            ops.append(dict(ws=rng.random() < 0.6, dflt=d,
                            cut=0 if d else rng.choice([0, 0, 10, 30, 70, 150, 500, 1500])))
        out.append(dict(id="w%d" % n, cfg=F, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCWannier", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "wannier")],
        groups=[dict(driver="d_wan", module="WannierTrace", cases=cases(ctx), shards=7)],
        assumptions=["files as written by Wannier90: elements grouped by cell, every "
                     "cell with its inverse, Hermitian elements and translations",
                     "terms whose modulus is within 1e-4 eV of the cutoff may be kept "
                     "or dropped"])
