import models as M
from c17 import det

SMALL = [(1, 0), (-1, 0), (0, 1), (0, -1), (2, 0), (0, 2), (1, 1), (-1, 1)]
FLAT = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[2, 1, 0], [-1, 1, 0], [0, 0, 2]], [[1, 1, 0], [1, -1, 0], [0, 0, 3]],
        [[0, 1, 0], [1, 0, 0], [0, 0, 2]], [[2, 0, 0], [1, 2, 0], [0, 0, 1]]]


def hop(rng, n, flat):
    t = M.gen_hops(rng, n, 1, flat=flat)[0]
    return t[:5] + list(rng.choice(SMALL))


def small_pc(rng, norb, nhop, flat, lat):
    pc = M.gen_pc(rng, norb=norb, nhop=0, flat=flat, lat=lat, emax=2)
    pc["hop"] = [hop(rng, norb, flat) for _ in range(nhop)]
    return pc


def edits(rng, norb, flat, budget):
    ops = []
    ed = rng.choice(["addorb", "addhop", "seteng", "seteng", "remorb"])
    if ed == "addorb" and norb < 3 and budget > 1:
        ops.append(dict(op=ed, p=M.pos(rng, 4, flat), e=rng.randint(-2, 2)))
        norb += 1
        ops.append(dict(op="addhop", t=[rng.randint(-1, 1), 0, 0, norb - 1,
                                        rng.randrange(norb - 1)]
                        + list(rng.choice(SMALL))))
        budget -= 1
    elif ed == "addhop" and budget > 0:
        ops.append(dict(op=ed, t=hop(rng, norb, flat)))
        budget -= 1
    elif ed == "remorb" and norb > 2 and budget > 0:
        ops.append(dict(op=ed, i=rng.randrange(norb)))
        norb -= 1
        ops.append(dict(op="addhop", t=hop(rng, norb, flat)))
        budget -= 1
    else:
        ops.append(dict(op="seteng", i=rng.randrange(norb), e=rng.randint(-2, 2)))
    return ops, norb, budget


def cases(ctx):
    rng = ctx.rng("lind")
    out = []
    for n in range(ctx.n(220, 2500)):
        dim = rng.choice([2, 3])
        lat = rng.choice(FLAT) if dim == 2 else rng.choice(M.LATS)
        flat = dim == 2
        norb = rng.choice([1, 2, 2, 3])
        pc = small_pc(rng, norb, rng.randint(1, 3), flat, lat)
        if flat:
            for o in pc["orb"]:
                if rng.random() < 0.5:
                    o["p"][2] = 4 * rng.randrange(0, 12)
        mesh = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
        if dim == 2:
            mesh[2] = 1
        while mesh[0] * mesh[1] * mesh[2] > 9:
            mesh[rng.randrange(3)] = 1
        cf = dict(mesh=mesh, dim=dim, gs=rng.choice([1, 1, 2, 4]),
                  ext=rng.choice([1, 1, 1, 2, 3]),
                  beta=rng.choice([500000, 1000000, 2000000, 5000000, 38681727]),
                  mu=rng.choice([0, 0, 500000, -1250000, 2000000]),
                  delta=rng.choice([125000, 250000, 500000, 1000000]),
                  emin=rng.choice([0, 0, 500000, -1000000]),
                  estep=rng.choice([500000, 1000000, 250000]), ne=2,
                  beps=rng.choice([1000000, 2500000, 4000000]))
        d = dict(pcs=[pc], scs=[], ihs=[], sp=dict(sc=[], ih=[]), lind=cf)
        ops, budget = [], 2
        for _ in range(rng.randint(2, 3)):
            r = rng.random()
            fort = rng.random() < 0.6
            if r < 0.45:
                meth = rng.choice(["reg", "arb"])
                qs = []
                for _ in range(rng.randint(1, 2)):
                    if meth == "reg":
                        qs.append([rng.randint(-1, m) * (60 // m) for m in mesh])
                    else:
                        qs.append([rng.randint(-40, 90) for _ in range(3)])
                    if flat:
                        qs[-1][2] = 0
                ops.append(dict(op="dyn", meth=meth, qs=qs, fort=fort,
                                form=rng.choice(["list", "array"])))
            elif r < 0.9:
                a, b = rng.choice("xyz"), rng.choice("xyz")
                if rng.random() < 0.08:
                    a, b = rng.choice([("w", "x"), ("x", ""), ("x", "yz"), ("", "")])
                ops.append(dict(op="ac", ca=a, cb=b, fort=fort))
            if rng.random() < 0.3:
                qs = []
                for _ in range(rng.randint(1, 3)):
                    q = [rng.randint(-3, 3) for _ in range(3)]
                    qs.append(q if any(q) else [1, 0, 0])
                ops.append(dict(op="eps", qs=qs, qd=rng.choice([1, 2, 3]),
                                form=rng.choice(["list", "array"]),
                                dp=[[[rng.randint(-16, 16) * 31250,
                                      rng.randint(-16, 16) * 31250]
                                     for _ in range(3)] for _ in qs]))
            if rng.random() < 0.2:
                ops.append(dict(op="eps0", omi=[1, 2, 3], dp=[
                    [rng.randint(-16, 16) * 62500, rng.randint(-16, 16) * 62500]
                    for _ in range(3)]))
            if rng.random() < 0.2:
                ops.append(dict(op="geo", det=det(lat), unit=rng.choice([10, 1, 5]),
                                form=rng.choice(["list", "array"]),
                                pts=[[rng.randint(-130, 130) for _ in range(3)]
                                     for _ in range(4)]))
            if rng.random() < 0.1:
                ops.append(dict(op="new", dim=rng.choice([0, 1, 2, 3, 4]),
                                mesh=rng.choice([[2, 2], [1, 2, 2], [2, 2, 1],
                                                 [1, 1, 1, 1]])))
            if rng.random() < 0.5:
                e, norb, budget = edits(rng, norb, flat, budget)
                ops += e
        out.append(dict(id=f"r{n}", cfg=d, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCResponse", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "response")],
        groups=[dict(driver="d_lind", module="ResponseTrace", cases=cases(ctx),
                     shards=7)],
        assumptions=["2d formulas are judged for cells with c along z, as the "
                     "documentation requires",
                     "conductivities are judged where no two bands are closer "
                     "than 3 meV unless degenerate"])
