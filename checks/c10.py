import models as M


def cases(ctx):
    rng = ctx.rng("mag")
    out = []
    small = ctx.n(150, 3000)
    for n in range(small + ctx.n(30, 400)):
        pm = rng.choice([0, 0, 0, 1, 2])
        d = M.gen_model(rng, pm=pm) if n < small else M.gen_big(rng, pm=pm)
        s0 = d["scs"][d["sp"]["sc"][0] - 1]
        ops = []
        for _ in range(rng.randint(1, 3)):
            pre = rng.random()
            if pre < 0.3:
                ops.append(dict(op="rescale", f=rng.choice([0, 2, 4])))
            elif pre < 0.5 and pm == 0:
                kn, kd = M.gen_k(rng, s0["dim"])
                ops.append(dict(op="set_k", kn=kn, kd=kd))
            if rng.random() < 0.2:
                ops.append(dict(op="mag", b=2, g=rng.choice([3, -1, 7])))
                ops.append(dict(op="arr"))
            g = rng.randrange(3)
            b = rng.choice([-3, -1, 1, 2, 3, 5]) if g < 2 \
                else rng.choice([-4, -2, 2, 2, 4])
            ops.append(dict(op="mag", b=b, g=g))
            ops.append(dict(op="arr"))
            for _ in range(rng.randint(0, 2)):
                kn, kd = M.gen_k(rng, s0["dim"])
                ops.append(rng.choice([
                    dict(op="csr"), dict(op="dxy", algo="fast", cut8=-1,
                                         sort=False)]
                    + ([dict(op="ham_sp", conv=1, kn=kn, kd=kd)] if pm == 0
                       else [])))
            ops.append(dict(op="reset"))
        ops.append(dict(op="arr"))
        out.append(dict(id=f"m{n}", cfg=d, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCHam", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
             "CONSTANTS Part = \"mag\"\n Big = %s\n" % ctx.n("FALSE", "TRUE"), "mag")],
        groups=[dict(driver="d_ham", module="HamTrace", cases=cases(ctx), shards=6)],
        assumptions=["field strengths make every bond phase a multiple of 1/720"
                     " turn"])
