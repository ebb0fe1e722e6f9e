import models as M


def det(L):
    return abs(L[0][0] * (L[1][1] * L[2][2] - L[1][2] * L[2][1])
               - L[0][1] * (L[1][0] * L[2][2] - L[1][2] * L[2][0])
               + L[0][2] * (L[1][0] * L[2][1] - L[1][1] * L[2][0]))


def calc_op(rng, who, d, norb, big=0):
    pc = d["pcs"][0]
    dim = d["scs"][0]["dim"] if who == "sp" else [1, 1, 1]
    kn, kd = M.gen_k(rng, dim)
    ks = [[rng.randint(-kd - 1, 2 * kd) for _ in range(3)] if kd > 1
          else [rng.randint(-1, 1) for _ in range(3)]
          for _ in range(rng.randint(1, 2 if who == "sp" else 4 + 5 * big))]
    o = dict(op=rng.choice(["states", "bands", "bands", "dos"]), who=who,
             conv=1 if who == "sp" else rng.choice([1, 2]), solver="lapack", k=0,
             which="LM", ks=ks, kd=kd, hasproj=False, orbs=[], oform="list",
             det=det(pc["lat"]) * dim[0] * dim[1] * dim[2])
    if rng.random() < 0.05:
        o["conv"] = rng.choice([0, 3] + ([2] if who == "sp" else []))
    if rng.random() < 0.05:
        o["solver"] = "feast"
    if norb >= 3 and rng.random() < 0.4:
        o["solver"] = "arpack"
        o["k"] = rng.choice([0, 1, norb - 2])
        # the solver for generalized problems looks for the largest energies
        o["which"] = "LA" if who == "ov" else rng.choice(["LM", "LM", "LA", "SA"])
    if o["op"] != "states" and rng.random() < 0.6:
        o["hasproj"] = True
        o["orbs"] = rng.sample(range(norb), rng.randint(1, norb))
        o["oform"] = rng.choice(["list", "tuple", "array", "set", "iter"])
    if o["op"] == "dos":
        lo = rng.choice([-8, -3, 0, 2])
        step = rng.choice([250000, 500000, 1000000, 750000, 1500000])
        o.update(basis=rng.choice(["Gaussian", "Lorentzian", "Gaussian",
                                   "Lorentzian", "Box" if rng.random() < 0.2
                                   else "Gaussian"]),
                 gs=rng.choice([1, 1, 2, 4]), auto=rng.random() < 0.25,
                 sg=rng.choice([250000, 500000, 1000000, 2000000]), estep=step,
                 emin=lo * 1000000, emax=lo * 1000000 + rng.randint(0, 6) * step
                 + rng.choice([0, 0, 125000, step // 2]))
        if rng.random() < 0.15:      # the default values
            o.update(sg=50000, estep=50000, basis="Lorentzian", auto=False,
                     emax=o["emin"] + rng.randint(0, 6) * 50000 + 12500)
        if o["auto"]:
            o["estep"] = rng.choice([3300000, 5700000])
    if who in ("pc", "sp") and o["op"] != "states" and rng.random() < 0.25:
        o["meth"] = True
        if o["op"] == "bands":
            o["hasproj"] = False
    return o


def cases(ctx):
    rng = ctx.rng("spec")
    out = []
    small = ctx.n(420, 5000)
    for n in range(small + ctx.n(35, 400)):
        big = int(n >= small)
        who = rng.choice(["pc", "pc", "pc", "sp", "ov", "fake"])
        if who == "sp":
            d = M.gen_model(rng, nsc=1, maxorb=6 + 7 * big)
            if M.num_orb(d, 1) > 9 + 5 * big:
                who = "pc"
        if who != "sp":
            pc = M.gen_pc(rng, norb=rng.choice([1, 2, 2, 3, 3, 4, 5])) \
                if not big else M.gen_pc(rng, norb=rng.randint(6, 9),
                                         nhop=rng.randint(6, 14))
            if who == "fake":
                # one orientation per pair, no repeated keys
                seen, hop = set(), []
                for t in pc["hop"]:
                    k = tuple(t[:5])
                    c = tuple([-x for x in t[:3]] + [t[4], t[3]])
                    if k not in seen and c not in seen:
                        seen.add(k)
                        hop.append(t)
                pc["hop"] = hop
            d = dict(pcs=[pc], scs=[], ihs=[], sp=dict(sc=[], ih=[]))
            if who == "ov":
                no = len(pc["orb"])
                d["ov"] = dict(lat=pc["lat"], org=pc["org"],
                               orb=[dict(p=o["p"], e=rng.choice([18, 20, 25]))
                                    for o in pc["orb"]],
                               hop=[t[:5] + rng.choice([[1, 0], [0, -2], [-2, 1]])
                                    for t in M.gen_hops(rng, no, 3, diag=True)])
        norb = M.num_orb(d, 1) if who == "sp" else len(d["pcs"][0]["orb"])
        ops = []
        for _ in range(rng.randint(2, 4)):
            ops.append(calc_op(rng, who, d, norb, big))
            if who == "pc":
                for _ in range(rng.choice([0, 1, 1, 2])):
                    ed = rng.choice(["addorb", "addhop", "seteng", "remorb"])
                    if ed == "addorb" and norb < 5 + 5 * big:
                        ops.append(dict(op=ed, p=M.pos(rng, 4, False),
                                        e=rng.randint(-4, 4)))
                        norb += 1
                        if rng.random() < 0.7:
                            ops.append(dict(op="addhop", t=[
                                rng.randint(-1, 1), 0, 0, norb - 1,
                                rng.randrange(norb - 1)] + list(rng.choice(M.PYTH))))
                    elif ed == "addhop":
                        ops.append(dict(op=ed, t=M.gen_hops(rng, norb, 1)[0]))
                    elif ed == "seteng":
                        ops.append(dict(op=ed, i=rng.randrange(norb),
                                        e=rng.randint(-4, 4)))
                    elif ed == "remorb" and norb > 2:
                        ops.append(dict(op=ed, i=rng.randrange(norb)))
                        norb -= 1
                        ops.append(dict(op="addhop", t=M.gen_hops(rng, norb, 1)[0]))
        out.append(dict(id=f"{who}{n}", who=who, cfg=d, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCSpectral", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "spectral")],
        groups=[dict(driver="d_spec", module="SpectralTrace", cases=cases(ctx),
                     shards=7)],
        assumptions=["the sparse solver is judged where the spectrum has no near "
                     "degeneracies"])
