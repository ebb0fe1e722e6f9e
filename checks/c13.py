import models as M


def cases(ctx):
    rng = ctx.rng()
    out = []
    for n in range(ctx.n(120, 1500)):
        d = M.gen_model(rng, nsc=rng.choice([1, 2]), maxorb=12,
                        pm=rng.choice([0, 0, 1, 2]))
        # other lattices for the second layer, an empty cell, coincident orbitals
        p3 = M.gen_pc(rng)
        if rng.random() < 0.5:
            o = dict(rng.choice(p3["orb"]))
            o["p"] = [x + 48 * rng.choice([0, 0, -1, 1]) for x in o["p"]]
            p3["orb"].append(o)
        empty = M.gen_pc(rng)
        empty["orb"], empty["hop"] = [], []
        d["pcs"] += [p3, empty]
        refs = [["pc", i + 1] for i in range(len(d["pcs"]) - 1)] \
            + [["sc", i + 1] for i in range(len(d["scs"]))]
        ops = []
        for _ in range(5):
            bra = rng.choice(refs)
            ket = [] if rng.random() < 0.4 else rng.choice(refs)
            big = "sc" in (bra[0], (ket or bra)[0])
            box = [rng.choice([0, 1, 1] if big else [0, 1, 2, 3])
                   for _ in range(3)]
            if box[0] * box[1] * box[2] > 6:
                box[rng.randrange(3)] = 0
            ops.append(dict(op="neigh", bra=bra, ket=ket, box=box,
                            d2=rng.choice([100, 576, 1200, 2303, 2303, 4608, 9216,
                                           rng.randint(1, 12000)])))
        if rng.random() < 0.15:
            e = ["pc", len(d["pcs"])]
            ops.append(dict(op="neigh", bra=rng.choice([e, ["pc", 1]]), ket=e,
                            box=[0, 0, 0], d2=2304))
        out.append(dict(id=f"t{n}", cfg=d, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCNeighbor", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n"
             % ctx.n("FALSE", "TRUE"), "neigh")],
        groups=[dict(driver="d_neigh", module="NeighborTrace",
                     cases=cases(ctx), shards=6)],
        assumptions=["positions on a grid of 1/48 nm; no pair lies on the "
                     "cutoff sphere"])
