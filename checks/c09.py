from builder_common import builder_plan
import models as M


def life(ctx):
    """Lifecycles with estimated factors, fields, k-points, dump and load."""
    rng = ctx.rng("life")
    out = []
    small = ctx.n(80, 1500)
    for n in range(small + ctx.n(20, 200)):
        d = M.gen_model(rng, maxorb=27) if n < small else M.gen_big(rng)
        s0 = d["scs"][d["sp"]["sc"][0] - 1]
        ops, phase = [], 0
        for _ in range(rng.randint(5, 9)):
            r = rng.random()
            if r < 0.35:
                ops.append(dict(op="rescale", f=rng.choice([0, 0, 2, 3, 5, 16])))
            elif r < 0.5:
                ops.append(dict(op="reset"))
                phase = 0
            elif r < 0.6 and not phase:
                kn, kd = M.gen_k(rng, s0["dim"])
                ops.append(dict(op="set_k", kn=kn, kd=kd))
                phase = 1
            elif r < 0.7 and not phase:
                ops.append(dict(op="mag", b=2, g=rng.randrange(3)))
                phase = 1
            elif r < 0.8:
                ops.append(dict(op="load", g=rng.choice([0, 1, 2, 7])))
            else:
                kn, kd = M.gen_k(rng, s0["dim"])
                ops.append(dict(op="ham_sp", conv=1, kn=kn, kd=kd))
            ops.append(dict(op="arr"))
        out.append(dict(id=f"l{n}", cfg=d, ops=ops))
    return out


def plan(ctx):
    p = builder_plan(ctx, [('sample', 200, 2000, 50)], [('sample', 5, 8)])
    p["groups"].append(dict(driver="d_ham", module="HamTrace", cases=life(ctx),
                            tag="life", shards=6))
    return p
