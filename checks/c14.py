LABS = ["s", "px", "py", "pz", "dxy", "dyz", "dzx", "dx2-y2", "dz2"]
VS = ["sss", "sps", "sds", "pps", "ppp", "pds", "pdp", "dds", "ddp", "ddd"]
QUADS = [(x, y, z, n) for n in range(1, 14) for x in range(n + 1)
         for y in range(x + 1) for z in range(y + 1)
         if x * x + y * y + z * z == n * n and (n == 1 or x != n)]


def ang(lab):
    return 0 if lab == "s" else 1 if lab[0] == "p" else 2


def vec(rng):
    *r, n = rng.choice(QUADS)
    rng.shuffle(r)
    return [x * rng.choice([1, -1]) for x in r], n


def cases(ctx):
    rng = ctx.rng()
    out = []
    pairs = [(a, b) for a in LABS for b in LABS]
    nrep = ctx.n(12, 200)
    for k in range(nrep):
        ops = []
        for a, b in pairs:
            r, n = vec(rng)
            cplx = (ang(a), ang(b)) not in ((1, 1), (2, 2)) and rng.random() < 0.3
            v = {q: [rng.randint(-3, 3), rng.randint(-3, 3) if cplx else 0]
                 for q in VS}
            mul = rng.choice([1, 1, 0.125, 3])
            if rng.random() < 0.01:
                r = [0, 0, 0]
            bad = rng.random() < 0.01
            if bad:
                a = rng.choice(["dxz", "p", "f", "dyx"])
            if rng.random() < 0.01:
                b, bad = rng.choice(["dxz", "p", "f", ""]), True
            ops.append(dict(op="sk", r=r, n=n, la=a, lb=b, v=v, mul=mul,
                            int=rng.random() < 0.3,
                            direct=not bad and rng.random() < 0.5))
        rng.shuffle(ops)
        out += [dict(id=f"k{k}_{i}", cfg={}, ops=ops[i::3]) for i in range(3)]
    for cls in ("SOC", "SOCTable", "SOCTable2"):
        for sa in ("up", "down"):
            for sb in ("up", "down"):
                out.append(dict(id=f"{cls}_{sa}_{sb}", cfg={}, ops=[
                    dict(op="soc", cls=cls, la=a, lb=b, sa=sa, sb=sb)
                    for a, b in pairs + [("f", "s"), ("s", "f")]]))
        out.append(dict(id=f"{cls}_bad", cfg={}, ops=[
            dict(op="soc", cls=cls, la="px", lb="py", sa=s, sb=t)
            for s, t in (("x", "up"), ("up", ""), ("Up", "up"))]))
    return out


def plan(ctx):
    return dict(
        mc=[("MCSlater", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "INVARIANT InvAng\nCHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n"
             % ctx.n("FALSE", "TRUE"), "slater")],
        groups=[dict(driver="d_sk", module="SlaterTrace", cases=cases(ctx),
                     shards=4)],
        assumptions=["displacements of integer length; integer parameters; "
                     "real parameters for p-p and d-d integrals"])
