import math


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def lat(rng):
    while True:
        m = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(3)]
        if rng.random() < 0.3:
            for i in range(3):
                for j in range(3):
                    m[i][j] = m[i][j] if (i < 2) == (j < 2) else 0
        if 0 < abs(det(m)) <= 40:
            return m


def vec(rng, r):
    return [rng.randint(-r, r) for _ in range(3)]


def cases(ctx):
    rng = ctx.rng()
    out = []
    for n in range(ctx.n(150, 3000)):
        ops = []
        for _ in range(2):
            L = lat(rng)
            org = rng.choice([[0, 0, 0], vec(rng, 4)])
            f = rng.choice(["list", "default", "array"])
            m = rng.randint(1, 4)
            ops += [
                dict(op="frac2cart", lat=L, org=org, form=f,
                     pts=[vec(rng, 100) for _ in range(m)]),
                dict(op="cart2frac", lat=L, org=org, form=f,
                     pts=[vec(rng, 20) for _ in range(m)]),
                dict(op="geo", lat=L),
                dict(op="geo_pc", lat=L, dim=[1, 1, 1]),
                dict(op="geo_sc", lat=L, dim=rng.choice([[3, 2, 1], [3, 1, 4],
                                                         [3, 1, 2]])),
                dict(op="area", lat=L, dir=rng.choice("abcdxz")),
                dict(op="kdist", lat=L, pts=[vec(rng, 13)
                                             for _ in range(rng.randint(2, 6))])]
            ops.append(dict(op="kmesh", n=[rng.randint(1, 6) for _ in range(3)]
                            if rng.random() < 0.8 else
                            rng.sample([1, 2, rng.randint(7, 40)], 3)))
            k = rng.randint(1, 4) if rng.random() < 0.8 else rng.randint(5, 12)
            bad = 1 if rng.random() < 0.1 else 0
            ops.append(dict(op="kpath", form=rng.choice(["list", "array", "tuple"]),
                            hs=[vec(rng, 18) for _ in range(k + 1 + bad)],
                            num=[rng.choice([1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30])
                                 for _ in range(k)]))
            ops.append(dict(op="rotate", form=rng.choice(["int", "float", "list"]),
                            m=rng.choice([0, 60, 90, 180, 360, -180,
                                          rng.randint(-800, 800)]),
                            ax=rng.choice(["x", "y", "z", "z", "z"])
                            if rng.random() < 0.95 else "w",
                            ctr=rng.choice([[0, 0, 0], vec(rng, 5)]),
                            pts=[vec(rng, 9) for _ in range(rng.randint(1, 4))]))
            while True:
                al, be, ga = (rng.choice([90, 60, 120, rng.randint(25, 150)])
                              for _ in range(3))
                ca, cb, cc = (math.cos(x * math.pi / 180) for x in (al, be, ga))
                if 1 + 2 * ca * cb * cc - ca * ca - cb * cb - cc * cc > 1e-3:
                    break
            ops.append(dict(op="latvec", a=rng.randint(1, 9), b=rng.randint(1, 9),
                            c=rng.randint(1, 9), al=al, be=be, ga=ga))
        if rng.random() < 0.1:
            ops.append(dict(op="kmesh", n=rng.choice([[2, 2], [1, 2, 3, 4], [5]])))
        out.append(dict(id=f"k{n}", cfg={}, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCLattice", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n"
             % ctx.n("FALSE", "TRUE"), "lat")],
        groups=[dict(driver="d_lat", module="LatticeTrace", cases=cases(ctx),
                     shards=4)],
        assumptions=["lattice vectors and coordinates are integers or integer"
                     " fractions"])
