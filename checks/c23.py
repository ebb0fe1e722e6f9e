import itertools

KIND = dict(diamond="hex60", rect="rect", reshaped="rect", sp="hex60", qsh="hex60",
            normal="hex60", phosphorene="rect", antimonene="hex60", antimonene_soc="hex60",
            mos2_soc="hex120", MoS2="hex60", MoSe2="hex60", WS2="hex60", WSe2="hex60")
G = dict(hex60=(2, -1, 2), hex120=(2, 1, 2), rect=(1, 0, 2))
HAS_C = ("diamond", "rect", "reshaped", "sp", "phosphorene", "antimonene", "antimonene_soc")


def group(kind):
    g, out = G[kind], []
    for m in itertools.product((-1, 0, 1), repeat=4):
        def b(p, q, r, s):
            return p * r * g[0] + (p * s + q * r) * g[1] + q * s * g[2]
        if m[0] * m[3] - m[1] * m[2] in (1, -1) and (
                b(m[0], m[1], m[0], m[1]), b(m[0], m[1], m[2], m[3]),
                b(m[2], m[3], m[2], m[3])) == g:
            out.append(m)
    return out


def cases(ctx):
    rng = ctx.rng("mat")
    out = []
    names = list(KIND)
    for n in range(ctx.n(420, 5600)):
        mat = names[n % len(names)]
        o = dict(op="make", mat=mat)
        if mat in HAS_C and rng.random() < 0.6:
            o["c"] = o["cc"] = rng.choice([350, 700, 1000, 2500])
        if mat in ("diamond", "rect", "reshaped") and rng.random() < 0.5:
            o["t"] = rng.choice([-2700, -1000, 500, 3000])
        if mat == "antimonene_soc" and rng.random() < 0.7:
            o["lam"] = rng.choice([0, 340, 100, -200])
        ops = [o]
        kd = rng.choice([12, 15, 16, 20, 36, 45, 48])
        for _ in range(rng.randint(1, 2)):
            k = [rng.randint(-kd, kd), rng.randint(-kd, kd)]
            if rng.random() < 0.25:
                kd = rng.choice([12, 16])
                k = [rng.choice([0, kd // 2]), rng.choice([0, kd // 2])]
            ks = [k]
            for m in rng.sample(group(KIND[mat]), rng.randint(2, 4)):
                ks.append([k[0] * m[0] + k[1] * m[2] + kd * rng.randint(-1, 1),
                           k[0] * m[1] + k[1] * m[3] + kd * rng.randint(-1, 1)])
            ops.append(dict(op="bands", ks=ks, kd=kd))
        kd = rng.choice([12, 16, 20, 36])
        k = [rng.randint(-kd, kd), rng.randint(-kd, kd)]
        ks = [k, [rng.randint(0, kd), rng.randint(0, kd)]]
        t = {"t": o["t"]} if "t" in o else {}
        if mat in ("rect", "reshaped"):
            ops.append(dict(op="same", rel="fold", mat="diamond", kd=kd, **t,
                            ks=[[k[0], 2 * k[1] - k[0]]], ks2=[k, [k[0], k[1] + kd // 2]]))
            ops.append(dict(op="same", rel="equal", kd=kd, ks=ks, ks2=ks, **t,
                            mat="rect" if mat == "reshaped" else "reshaped"))
        elif mat == "antimonene_soc" and o.get("lam") == 0:
            ops.append(dict(op="same", rel="double", mat="antimonene", kd=kd, ks=ks, ks2=ks))
        if rng.random() < 0.1:
            ops.append(dict(op="make", mat=rng.choice(["NbS2", "mos2", "MoTe2"])))
        out.append(dict(id="m%d" % n, cfg={}, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCMaterial", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "material")],
        groups=[dict(driver="d_mat", module="MaterialTrace", cases=cases(ctx), shards=4)],
        assumptions=["symmetries are judged on the bands, to the accuracy of the published "
                     "parameters (1.5e-4 eV for the models with spin-orbit coupling)"])
