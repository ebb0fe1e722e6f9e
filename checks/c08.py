import models as M
from infra import REPO  # noqa: F401


def cases(ctx):
    rng = ctx.rng("ham")
    out = []
    small = ctx.n(120, 2500)
    for n in range(small + ctx.n(30, 400)):
        d = M.gen_model(rng) if n < small else M.gen_big(rng)
        pc = d["pcs"][0]
        ops = []
        for _ in range(4):
            kn, kd = M.gen_k(rng, [1])
            ops.append(dict(op="ham_pc", p=1, conv=rng.choice([1, 2]), kn=kn,
                            kd=kd))
        if rng.random() < 0.3:
            ops.append(dict(op="ham_pc", p=1, conv=rng.choice([0, 3, -1]),
                            kn=[0, 0, 0], kd=1))
        if rng.random() < 0.6:
            no = len(pc["orb"])
            d["ov"] = dict(pc, orb=[dict(o, e=rng.choice([1, 1, 2]))
                                    for o in pc["orb"]],
                           hop=M.gen_hops(rng, no, rng.randint(1, 4)))
            for _ in range(2):
                kn, kd = M.gen_k(rng, [1])
                ops.append(dict(op="ham_ov", conv=rng.choice([1, 2]), kn=kn,
                                kd=kd))
        s0 = d["scs"][d["sp"]["sc"][0] - 1]

        def read():
            kn, kd = M.gen_k(rng, s0["dim"])
            return rng.choice([
                dict(op="ham_sp", conv=1, kn=kn, kd=kd),
                dict(op="ham_sp", conv=1, kn=kn, kd=kd),
                dict(op="csr"),
                dict(op="dxy", algo=rng.choice(["fast", "safe"]),
                     cut8=rng.choice([-1, -1, 0, 8, 12, 24]),
                     sort=rng.random() < 0.5),
                dict(op="dxy", algo=rng.choice(["fast", "safe"]), cut8=-1,
                     sort=rng.random() < 0.3)])
        ops += [read() for _ in range(3)]
        if rng.random() < 0.5:
            ops.append(dict(op="rescale", f=rng.choice([2, 4, 16])))
            ops += [read(), read()]
        if rng.random() < 0.5:
            kn, kd = M.gen_k(rng, s0["dim"])
            ops.append(dict(op="set_k", kn=kn, kd=kd))
            ops += [read(), read()]
        if rng.random() < 0.2:
            ops.append(dict(op="ham_sp", conv=2, kn=[0, 0, 0], kd=1))
        out.append(dict(id=f"h{n}", cfg=d, ops=ops))
    # degenerate cells and arbitrary real-valued models
    void = dict(lat=M.LATS[0], org=[0, 0, 0], orb=[], hop=[])
    bare = dict(void, orb=[dict(p=[0, 0, 0], e=2)])
    out.append(dict(id="void", cfg=dict(pcs=[void, bare], scs=[], ihs=[],
                                        sp=dict(sc=[], ih=[])),
                    ops=[dict(op="ham_pc", p=p, conv=c, kn=[0, 0, 0], kd=1)
                         for p in (1, 2) for c in (1, 2, 5)]))
    for n in range(ctx.n(15, 200)):
        out.append(dict(id=f"g{n}", cfg=dict(pcs=[], scs=[], ihs=[],
                                             sp=dict(sc=[], ih=[])),
                        ops=[dict(op="generic", what=w, seed=rng.randrange(10**9))
                             for w in ("pc", "pc", "sp")]))
    return out


def plan(ctx):
    return dict(
        mc=[("MCHam", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
             "CONSTANTS Part = \"ham\"\n Big = %s\n" % ctx.n("FALSE", "TRUE"), "ham")],
        groups=[dict(driver="d_ham", module="HamTrace", cases=cases(ctx),
                     shards=6)],
        assumptions=["matrix elements are Gaussian integers times phases that are"
                     " multiples of 1/720 turn (plus agreement clauses on real"
                     " numbers)"])
