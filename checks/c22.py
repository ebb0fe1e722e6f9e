import models as M


def doubled(rng, pc):
    """Two uncoupled spin copies, in either orbital order."""
    n = len(pc["orb"])
    major = rng.random() < 0.5

    def idx(i, s):
        return s * n + i if major else 2 * i + s
    orb = [None] * (2 * n)
    hop = []
    for s in range(2):
        for i, o in enumerate(pc["orb"]):
            orb[idx(i, s)] = dict(o)
        for t in pc["hop"]:
            v = t[5:] if s == 0 or rng.random() < 0.7 else [t[5], -t[6]]
            hop.append(t[:3] + [idx(t[3], s), idx(t[4], s)] + list(v))
    return dict(pc, orb=orb, hop=hop), major


def no_dup(pc):
    seen, hop = set(), []
    for t in pc["hop"]:
        k = tuple(t[:5])
        c = tuple([-x for x in t[:3]] + [t[4], t[3]])
        if k not in seen and c not in seen:
            seen.add(k)
            hop.append(t)
    pc["hop"] = hop


def z2_op(rng):
    kd = rng.choice([4, 5, 6, 8])
    s = rng.randint(-kd, kd)
    ka = [s + i for i in range(kd + rng.choice([0, 1]))]
    if rng.random() < 0.3:
        ka = ka[::-1]
    if rng.random() < 0.15:
        ka = [s, s + 1]
    return dict(op="z2", ka=ka, kb=[rng.randint(-kd, kd) for _ in range(rng.randint(1, 2))],
                kc=rng.choice([0, 0, 1, -2]), kd=kd)


def gen_ks(rng, kd):
    return [[rng.randint(-kd, kd) for _ in range(3)] for _ in range(rng.randint(1, 3))]


def reorder_op(rng):
    """Well separated continuous curves on a circle."""
    thr = rng.choice([100000, 200000, 300000])
    occ = rng.choice([1, 2, 2, 3, 4])
    rows = rng.randint(2, 14)
    if rng.random() < 0.12:
        thr, occ, rows = 100000, rng.choice([4, 6, 8]), rng.randint(12, 40)
    while True:
        st = sorted(rng.randint(-3141592, 3141592) for _ in range(occ))
        if all((st[(i + 1) % occ] - st[i]) % 6283185 > 4 * thr for i in range(occ)) or occ == 1:
            break
    tr = [st]
    drift = rng.choice([0, 1, -1])
    for _ in range(rows - 1):
        d = drift * rng.randint(0, thr * 6 // 10) + rng.randint(-thr // 10, thr // 10)
        new = [x + d + rng.randint(-thr // 20, thr // 20) for x in tr[-1]]
        if max(abs(x) for x in new) > 9300000 or any(
                (new[(i + 1) % occ] - new[i]) % 6283185 < 3 * thr for i in range(occ)) and occ > 1:
            break
        tr.append(new)
    return dict(op="reorder", tr=tr, thr=thr, smooth=rng.random() < 0.5)


def crossing_op(rng):
    """Straight lines that cross between the rows, away from the branch cut."""
    thr = rng.choice([300000, 400000])
    occ = rng.choice([2, 2, 3])
    rows = rng.randint(4, 9)
    while True:
        sl = [rng.randint(-thr * 8 // 10, thr * 8 // 10) for _ in range(occ)]
        st = sorted(rng.randint(-2500000, 2500000) for _ in range(occ))
        tr = [[x + i * y for x, y in zip(st, sl)] for i in range(rows)]
        if all(abs(x) < 3100000 for r in tr for x in r) \
                and all(abs(r[i] - r[j]) > 2000 for r in tr for i in range(occ)
                        for j in range(i)) \
                and all(tr[1][i] < tr[1][i + 1] for i in range(occ - 1)):
            return dict(op="reorder", tr=tr, thr=thr, smooth=True)


def count_op(rng):
    occ = rng.choice([1, 2, 3])
    vals = [-3000, -1000, -1, 0, 1, 500, 999, 1000, 2500]
    return dict(op="count", ph=[[rng.choice(vals) for _ in range(occ)]
                                for _ in range(rng.randint(1, 7))],
                ref=rng.choice([0, 500, -1000, 1000, 700]))


def cases(ctx):
    rng = ctx.rng("topo")
    out = []
    for n in range(ctx.n(420, 6000)):
        if rng.random() < 0.35:
            pc, major = doubled(rng, M.gen_pc(rng, norb=rng.choice([1, 2] if rng.random() < 0.93 else [3, 4]),
                                              nhop=rng.randint(2, 5)))
        else:
            pc = M.gen_pc(rng, norb=rng.choice([2, 2, 4]), nhop=rng.randint(3, 8)) \
                if rng.random() < 0.93 else M.gen_pc(rng, norb=rng.choice([6, 8]),
                                                     nhop=rng.randint(8, 14))
            major = rng.random() < 0.5
        fake = rng.random() < 0.12
        if fake:
            no_dup(pc)
        no = len(pc["orb"])
        kd = rng.choice([4, 5, 6, 10, 12])
        ks = gen_ks(rng, kd)
        occ = rng.randint(1, min(no, 3 if no < 5 else 5))
        if no == 4 and rng.random() < 0.5:
            occ = 2
        ops = []
        for _ in range(rng.randint(2, 5)):
            k = rng.choice(["z2", "z2", "spin", "spin", "spin", "reorder", "count", "new",
                            "kcart"])
            if k == "z2":
                ops.append(z2_op(rng))
            elif k == "spin":
                ops.append(dict(op=k, comp=rng.choice("xyz")))
                if rng.random() < 0.4:
                    ops.append(dict(op=k, comp=rng.choice("xyz")))
            elif k == "reorder":
                for f in (reorder_op, reorder_op, crossing_op):
                    r = f(rng)
                    if len(r["tr"][0]) <= no:
                        ops.append(r)
            elif k == "count":
                ops += [count_op(rng) for _ in range(3)]
            elif k == "new":
                ops.append(dict(op=k, occ=rng.choice([-1, 0, 1, no, no + 1])))
            else:
                ops.append(dict(op=k, kd=kd))
            for _ in range(rng.choice([0, 1, 1, 2])):
                if rng.random() < 0.5 and not fake:
                    ops.append(dict(op="addhop", t=M.gen_hops(rng, no, 1)[0]))
                else:
                    ops.append(dict(op="seteng", i=rng.randrange(no),
                                    e=rng.choice([-4, -2, -1, 1, 3])))
            if rng.random() < 0.25:
                ks = gen_ks(rng, kd)
                ops.append(dict(op="setk", ks=ks, kd=kd, inplace=rng.random() < 0.5))
        if n % 75 == 3:
            ops.append(dict(op="z2def"))
        out.append(dict(id=f"t{n}", cfg=dict(pc=pc, occ=occ, ks=ks0(ops, ks), kd=kd,
                                             major=major, fake=fake), ops=ops))
    return out


def ks0(ops, ks):
    """Initial k-grid: independent of later replacements."""
    for o in ops:
        if o["op"] == "setk":
            return [[x[0] - 1, x[1], x[2] + 1] for x in o["ks"]]
    return ks


def plan(ctx):
    return dict(
        mc=[("MCTopology", "INIT Init\nNEXT Next\nINVARIANT Inv\n"
             "CHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"),
             "topology")],
        groups=[dict(driver="d_topo", module="TopologyTrace", cases=cases(ctx),
                     shards=7)],
        assumptions=["loop phases are judged where the occupied states are separated "
                     "from the empty ones by 0.05 eV and the loop eigenvalue is not "
                     "smaller than 0.05",
                     "spin expectation values of degenerate states are judged summed "
                     "over the degenerate group",
                     "reorder_phases is judged on continuous curves whose separation "
                     "exceeds three thresholds and whose steps are below one"])
