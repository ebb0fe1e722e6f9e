"""Random model descriptions with integer data (see spec/Ham, MkModel)."""
LATS = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 1]],
    [[2, 1, 0], [-1, 1, 0], [0, 0, 1]],
    [[1, 1, 0], [1, -1, 0], [0, 0, 2]],
    [[1, 0, 1], [0, 1, 1], [1, 1, 0]],
    [[2, 0, 0], [1, 2, 0], [0, -1, 1]],
    [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    [[3, 0, 0], [1, 2, 0], [0, 0, 1]],
]
PYTH = [(1, 0), (-1, 0), (0, 1), (0, -2), (2, 0), (-3, 0), (3, 4), (-4, 3),
        (3, -4), (0, 5), (-5, 0), (5, -12), (8, 6)]


def pos(rng, mul, flat):
    p = [mul * rng.randrange(-(24 // mul), 72 // mul) for _ in range(3)]
    if flat:
        p[2] = 0
    return p


def gen_hops(rng, n, num, rmax=1, flat=False, diag=True):
    out = []
    for _ in range(num):
        while True:
            rn = [rng.randint(-rmax, rmax) for _ in range(3)]
            if flat:
                rn[2] = 0
            i, j = rng.randrange(n), rng.randrange(n)
            if i != j or (rn != [0, 0, 0] and diag):
                break
            if n == 1 and flat and rn == [0, 0, 0]:
                continue
        out.append(rn + [i, j] + list(rng.choice(PYTH)))
    return out


def gen_pc(rng, norb=None, nhop=None, mul=4, flat=None, lat=None, org=None,
           emax=4):
    flat = rng.random() < 0.5 if flat is None else flat
    n = norb or rng.choice([1, 1, 2, 2, 3])
    lat = lat or rng.choice(LATS)
    org = org or rng.choice([[0, 0, 0], [0, 0, 0], [1, -2, 3], [-1, 0, 2]])
    nhop = rng.randint(1, 5) if nhop is None else nhop
    return dict(lat=lat, org=org,
                orb=[dict(p=pos(rng, mul, flat), e=rng.randint(-emax, emax))
                     for _ in range(n)],
                hop=gen_hops(rng, n, nhop, flat=flat))


def min_dims(pc):
    return [2 * max([abs(t[d]) for t in pc["hop"]] + [0]) + 1 for d in range(3)]


def gen_sc(rng, pcs, p, maxorb=36, pm=0, vac=True):
    pc = pcs[p - 1]
    n = len(pc["orb"])
    dim = min_dims(pc)
    for _ in range(3):
        d = rng.randrange(3)
        new = list(dim)
        new[d] += 1
        if new[0] * new[1] * new[2] * n <= maxorb and new[d] <= 5 \
                and rng.random() < 0.6:
            dim = new
    pbc = [rng.random() < 0.6 for _ in range(3)]
    total = dim[0] * dim[1] * dim[2] * n
    vacs = []
    if vac and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            v = [rng.randrange(dim[0]), rng.randrange(dim[1]),
                 rng.randrange(dim[2]), rng.randrange(n)]
            if v not in vacs and len(vacs) < total - 2:
                vacs.append(v)
    num = total - len(vacs)
    mod, pairs = [], set()
    if vac and rng.random() < 0.4:       # incl. terms of an orbital and its image
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(num)
            j = i if rng.random() < 0.5 else rng.randrange(num)
            rn = [rng.randint(-1, 1) for _ in range(3)]
            key = (min(i, j), max(i, j))
            if key in pairs or (i == j and rn == [0, 0, 0]):
                continue
            pairs.add(key)
            mod.append(rn + [i, j] + list(rng.choice(PYTH)))
    return dict(pc=p, dim=dim, pbc=pbc, vac=vacs, mod=mod, pm=pm)


def num_orb(d, s):
    sc = d["scs"][s - 1]
    n = len(d["pcs"][sc["pc"] - 1]["orb"])
    return sc["dim"][0] * sc["dim"][1] * sc["dim"][2] * n - len(sc["vac"])


def gen_model(rng, nsc=None, pm=0, maxorb=36, mul=4, vac=True):
    """Primitive cells share one lattice so that all Bloch phases are rational."""
    nsc = nsc or rng.choice([1, 1, 1, 2])
    pcs = [gen_pc(rng, mul=mul)]
    if nsc == 2:
        lat = pcs[0]["lat"]
        sh = [rng.randint(-1, 1) for _ in range(3)]
        org = [pcs[0]["org"][c] + sum(sh[r] * lat[r][c] for r in range(3))
               for c in range(3)]
        pcs.append(gen_pc(rng, mul=mul, lat=lat, org=org, norb=1))
    d = dict(pcs=pcs, scs=[], ihs=[], sp=dict(sc=list(range(1, nsc + 1)), ih=[]))
    for s in range(nsc):
        d["scs"].append(gen_sc(rng, pcs, s + 1, maxorb=maxorb // nsc, pm=pm,
                               vac=vac))
    if nsc == 2 and rng.random() < 0.8:
        b, k = rng.choice([(1, 2), (2, 1)])
        hop, seen = [], set()
        for _ in range(rng.randint(1, 3)):
            rn = [rng.randint(-1, 1) for _ in range(3)]
            i, j = rng.randrange(num_orb(d, b)), rng.randrange(num_orb(d, k))
            if (tuple(rn), i, j) in seen:
                continue
            seen.add((tuple(rn), i, j))
            hop.append(rn + [i, j] + list(rng.choice(PYTH)))
        d["ihs"].append(dict(bra=b, ket=k, hop=hop))
        d["sp"]["ih"] = [1]
        if rng.random() < 0.5:
            d["sp"]["sc"] = [2, 1]
    return d


def lcm(a, b):
    from math import gcd
    return a * b // gcd(a, b)


def gen_big(rng, pm=0):
    """One sample of a hundred orbitals or so, with hoppings to second-nearest
    cells and several terms between the same orbitals."""
    n = rng.choice([2, 3, 4, 6])
    rmax = rng.choice([1, 2]) if n < 6 else 1
    pc = gen_pc(rng, norb=n, nhop=0, flat=True)
    pc["hop"] = gen_hops(rng, n, rng.randint(4, 14), rmax=rmax, flat=True)
    a, b = min_dims(pc)[:2]
    opt = [[x, y, z] for x in range(a, 16) for y in range(b, 16) for z in (1, 2)
           if 60 % lcm(x, y) == 0 and 60 <= x * y * z * n <= 110]
    dim = rng.choice(opt or [[a, b, 1]])
    num = dim[0] * dim[1] * dim[2] * n
    vac = []
    for i in rng.sample(range(num), rng.randint(0, 25)):
        vac.append([i // n // dim[2] // dim[1], i // n // dim[2] % dim[1],
                    i // n % dim[2], i % n])
    num -= len(vac)
    mod, pairs = [], set()
    for _ in range(rng.randint(0, 8)):
        i, j = rng.randrange(num), rng.randrange(num)
        if i != j and (min(i, j), max(i, j)) not in pairs:
            pairs.add((min(i, j), max(i, j)))
            mod.append([rng.randint(-1, 1) for _ in range(3)] + [i, j]
                       + list(rng.choice(PYTH)))
    sc = dict(pc=1, dim=dim, pbc=[rng.random() < 0.7 for _ in range(3)], vac=vac,
              mod=mod, pm=pm)
    return dict(pcs=[pc], scs=[sc], ihs=[], sp=dict(sc=[1], ih=[]))


def gen_k(rng, dims):
    """kn, kd with dim * kd dividing 60 for every supercell dimension."""
    m = 1
    for x in dims:
        m = lcm(m, x)
    if 60 % m:
        return [0, 0, 0], 1
    kd = rng.choice([q for q in range(1, 61) if (60 // m) % q == 0])
    return [rng.randint(-kd - 1, 2 * kd) for _ in range(3)], kd
