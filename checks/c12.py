import models as M
from c15 import det


def matrix(rng, maxdet=5):
    while True:
        r = rng.random()
        if r < 0.4:      # in-plane
            m = [[rng.randint(-3, 3), rng.randint(-3, 3), 0],
                 [rng.randint(-3, 3), rng.randint(-3, 3), 0], [0, 0, 1]]
        elif r < 0.9:
            m = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(3)]
        else:
            a, b = rng.randint(-4, 4), rng.randint(-4, 4)
            m = [[rng.randint(1, 4), 0, 0], [a, 1, 0], [b, 0, 1]]
        if 1 <= abs(det(m)) <= maxdet:
            return m


def cell(rng, tag, **kw):
    d = M.gen_pc(rng, **kw)
    for i, o in enumerate(d["orb"]):
        o["lab"] = f"{tag}{i}"
        if rng.random() < 0.15:      # far outside of the home cell
            o["p"] = [x + 48 * rng.randint(-2, 2) for x in o["p"]]
        if tag != "c" and rng.random() < 0.4:       # slightly below or above the cell borders
            o["p"] = [rng.choice([x, -1, 1, -2, 47, 48, 95]) for x in o["p"]]
    if rng.random() < 0.3 and len(d["orb"]) > 1:
        d["orb"][1]["p"] = list(d["orb"][0]["p"])     # coincident orbitals
    return d


def chain(rng, p, big=1):
    ms, kinds = [], []
    total = 1
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.choice(["extend", "reshape", "reshape", "hetero"])
        if kind == "extend":
            dim = [rng.choice([1, 1, 2, 3] if big == 1 else [1, 2, 3, 5])
                   for _ in range(3)]
            while dim[0] * dim[1] * dim[2] * total > 8 * big:
                dim[rng.randrange(3)] = 1
            m = [[dim[0], 0, 0], [0, dim[1], 0], [0, 0, dim[2]]]
        else:
            m = matrix(rng, max(1, 6 * big // total))
        total *= abs(det(m))
        ms.append(m)
        kinds.append(kind)
    return dict(op="chain", p=p, ms=ms, kinds=kinds, raw=[], kind="",
                delta=rng.choice([0, 0, 487, 487, 1487, 10]),
                short=rng.random() < 0.5)


def merge(rng, cells):
    n = len(cells)
    pcs = rng.sample(range(1, n + 1), rng.randint(1, n))
    ihs = []
    for _ in range(rng.randint(0, 2)):
        src = pcs if rng.random() < 0.95 else range(1, n + 1)
        b, k = rng.choice(list(src)), rng.choice(list(src))
        if b == k:
            continue
        seen, hop = set(), []
        for _ in range(rng.randint(1, 3)):
            rn = [rng.randint(-2, 2) for _ in range(3)]
            over = 1 if rng.random() < 0.06 else 0
            i = rng.randrange(len(cells[b - 1]["orb"]) + over)
            j = rng.randrange(len(cells[k - 1]["orb"]) + over)
            if (tuple(rn), i, j) not in seen:
                seen.add((tuple(rn), i, j))
                hop.append(rn + [i, j] + list(rng.choice(M.PYTH)))
        ihs.append(dict(bra=b, ket=k, hop=hop))
    if rng.random() < 0.03:
        pcs, ihs = [], []
    return dict(op="merge", pcs=pcs, ihs=ihs, alien=rng.random() < 0.04,
                mix=rng.random() < 0.3,
                lock=rng.choice(pcs) if pcs and rng.random() < 0.3 else 0)


def cases(ctx):
    rng = ctx.rng()
    out = []
    small = ctx.n(150, 3000)
    for n in range(small + ctx.n(25, 300)):
        lat = rng.choice(M.LATS)
        big = n >= small
        cells = [cell(rng, t, lat=lat) if not big else
                 cell(rng, t, lat=lat, norb=rng.randint(3, 6),
                      nhop=rng.randint(5, 16)) for t in "abc"]
        if rng.random() < 0.1:
            cells[2]["lat"] = [[5, 0, 0], [0, 1, 0], [0, 0, 1]]
        ops = [chain(rng, rng.randint(1, 3), 2 if big else 1) for _ in range(3)]
        ops.append(dict(op="spiral",
                        p=rng.choice([i for i in (1, 2, 3)
                                      if not any(x % 4 for o in cells[i-1]["orb"]
                                                 for x in o["p"])]),
                        m=rng.choice([0, 60, 120, 180, 240, -90,
                                      rng.randint(-720, 720)]),
                        ctr=[rng.randint(-2, 2) for _ in range(3)],
                        sh=rng.randint(-12, 12)))
        ops += [merge(rng, cells) for _ in range(2)]
        if rng.random() < 0.3:
            kind, raw = rng.choice([
                ("extend", [2]), ("extend", [1, 1, 1, 1]), ("extend", [0, 1]),
                ("extend", [1, 1, 0]), ("extend", [1, -1, 1]),
                ("reshape", [[1, 0], [0, 1]]), ("reshape", [1, 2, 3])])
            ops.append(dict(op="chain", p=1, ms=[], kinds=[], raw=raw, kind=kind,
                            delta=0, short=False))
        out.append(dict(id=f"t{n}", cfg=dict(pcs=cells), ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCCrystal", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n"
             % ctx.n("FALSE", "TRUE"), "crystal")],
        groups=[dict(driver="d_cell", module="CrystalTrace", cases=cases(ctx),
                     shards=6)],
        assumptions=["integer lattices and hopping energies, unique labels"])
