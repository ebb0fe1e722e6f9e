import models as M
from c19 import tiny_model, bound


def coll(rng, p, kind):
    f = rng.choice(["reduce", "all_reduce", "average", "all_average", "bcast"])
    shape = rng.choice([[1], [4], [5], [2, 3], [3, 2], [2, 2, 3], [4, 1], [1, 3]])
    order = rng.choice("CCF")
    if rng.random() < 0.15 and f in ("all_reduce", "all_average") and len(shape) > 1 \
            and max(shape) > 1:
        order = "S"
    cplx = rng.random() < 0.5
    n = 1
    for x in shape:
        n *= x
    data, flat = [], []
    for _ in range(p):
        if cplx:
            d = [[rng.randint(-50, 50), rng.randint(-50, 50)] for _ in range(n)]
            flat.append([x for z in d for x in z])
        else:
            d = [rng.randint(-50, 50) for _ in range(n)]
            flat.append(list(d))
        data.append(d)
    return dict(op="coll", f=f, shape=shape, order=order, cplx=cplx, data=data,
                flat=flat)


def gen_ks(rng, kd, n=None):
    return [[rng.randint(-kd, kd) for _ in range(3)]
            for _ in range(n or rng.choice([1, 2, 3, 4, 5, 7]))]


def diag_case(rng, p):
    no = rng.choice([2, 2, 4])
    pc = M.gen_pc(rng, norb=no, nhop=rng.randint(3, 6), lat=rng.choice(M.LATS[:4]))
    dim = rng.choice([2, 3])
    mesh = [rng.choice([1, 2, 3]) for _ in range(3)]
    if dim == 2:
        mesh[2] = 1
    kd = rng.choice([5, 7, 12])
    cfg = dict(kind="diag", p=p, pc=pc, occ=rng.randint(1, min(no, 3)), kd=kd,
               ks=gen_ks(rng, kd), major=rng.random() < 0.5,
               lind=dict(mesh=mesh, dim=dim, emin=0, ne=2, estep=1000000,
                         mu=rng.choice([0, 500000]), beta=1000000, delta=500000))
    ops = []
    for _ in range(rng.randint(8, 12)):
        k = rng.choice(["bands", "dos", "states", "states", "z2", "spin", "spin",
                        "dyn", "dyn", "ac", "edit", "setk", "dist"])
        if k == "edit":
            if rng.random() < 0.5:
                ops.append(dict(op="seteng", i=rng.randrange(no), e=rng.randint(-3, 3)))
            else:
                ops.append(dict(op="addhop", t=M.gen_hops(rng, no, 1)[0]))
        elif k == "setk":
            ops.append(dict(op=k, ks=gen_ks(rng, kd), kd=kd))
            ops.append(dict(op="spin", comp=rng.choice("xyz")))
        elif k == "dist":
            ops.append(dict(op=k, n=rng.randint(1, 12)))
        elif k == "spin":
            ops.append(dict(op=k, comp=rng.choice("xyz")))
        elif k == "z2":
            d = rng.choice([5, 6, 8])
            ops.append(dict(op=k, ka=list(range(d)), kd=d,
                            kb=[rng.randint(-d, d) for _ in range(rng.choice([1, 2, 3, 5]))]))
        elif k == "ac":
            ops.append(dict(op=k, comp=rng.choice("xyz"[:dim]) + rng.choice("xyz"[:dim]),
                            fort=rng.random() < 0.5))
        elif k == "dyn":
            ops.append(dict(op=k, meth=rng.choice(["reg", "arb"]), fort=rng.random() < 0.5,
                            qs=[[rng.randint(-2, 2) if m > 1 or rng.random() < 0.3 else 0
                                 for m in mesh] for _ in range(rng.choice([1, 1, 2, 3]))]))
        else:
            orbs = [] if rng.random() < 0.4 else rng.sample(range(no), rng.randint(1, no))
            ops.append(dict(op=k, ks=gen_ks(rng, kd), kd=kd, conv=rng.choice([1, 2]),
                            orbs=orbs, red=rng.random() < 0.6))
    return cfg, ops


def tbpm_case(rng, p):
    while True:
        d, n = tiny_model(rng)
        f = 9 * -(-(bound(d) + 1) // 9)
        if 2 <= n <= 8 and f <= 45:
            break
    cfg = dict(kind="tbpm", p=p, m=d, f=f, ns=rng.choice([1, 2, 3, 4]),
               dim=rng.choice([2, 3]))
    ops = []
    for _ in range(rng.randint(6, 9)):
        if rng.random() < 0.3:
            ops.append(dict(op="ns", n=rng.randint(1, 7)))
        k = rng.choice(["dos", "ldos", "ac", "dyn", "dc", "dc", "hall", "qe", "qe", "psi",
                        "hay"])
        o = dict(op=k, T=rng.randint(2, 6), seed=rng.choice([1, 7, 1337]),
                 sampled=k not in ("psi", "hay"))
        if k == "ldos":
            o["sites"] = rng.sample(range(n), rng.choice([1, 1, 2]))
        elif k == "hay":
            o["sites"] = [rng.randrange(n)]
        elif k == "dyn":
            o["qs"] = [[rng.randint(-2, 2), rng.randint(1, 2), 0]
                       for _ in range(rng.choice([1, 2, 3]))]
        elif k == "qe":
            o["ens"] = [rng.randint(-9, 9) for _ in range(rng.choice([1, 2, 3]))]
        ops.append(o)
    return cfg, ops


def cases(ctx):
    rng = ctx.rng("part")
    out = []
    gs = [(n, g) for n in range(0, ctx.n(26, 70)) for g in range(1, ctx.n(14, 40))]
    for i in range(0, len(gs), 40):
        out.append(dict(id="s%d" % (i // 40), cfg=dict(kind="split", p=1),
                        ops=[dict(op="split", n=n, g=g) for n, g in gs[i:i + 40]]))
    ps = ctx.n([1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6, 7, 8, 11])
    for p in ps:
        for j in range(ctx.n(1, 6)):
            out.append(dict(id="e%d_%d" % (p, j), cfg=dict(kind="env", p=p),
                            ops=[dict(op="dist", n=n) for n in
                                 (range(0, 14) if j == 0 else rng.sample(range(14, 400), 14))]
                            + [coll(rng, p, k) for k in range(40)]))
    for j in range(ctx.n(24, 220)):
        p = rng.choice(ps[1:]) if j % 10 else 1
        cfg, ops = diag_case(rng, p)
        out.append(dict(id="d%d" % j, cfg=cfg, ops=ops))
    for j in range(ctx.n(24, 220)):
        p = rng.choice(ps[1:]) if j % 10 else 1
        cfg, ops = tbpm_case(rng, p)
        out.append(dict(id="t%d" % j, cfg=cfg, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCPartition", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"), "partition")],
        groups=[dict(driver="d_part", module="PartitionTrace", cases=cases(ctx),
                     shards=7, nproc=4, timeout=240)],
        assumptions=["lists are distributed over at most as many processes as they "
                     "have elements",
                     "eigenvectors are compared through expressions that do not depend "
                     "on their phases or the basis of degenerate states"])
