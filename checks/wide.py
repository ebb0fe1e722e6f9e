"""Larger models than the histories of spec/BuilderGen: many orbitals, long
hopping terms, elongated supercells, many vacancies, modifiers and components.
The scripts are judged by the same specification (spec/BuilderTrace)."""
import models as M

VALS = [(1, 0), (-1, 0), (0, 1), (2, -3), (-2, 5), (7, 0), (0, -4), (11, 6),
        (-40, 3), (100, -100)]


def rn_arg(rng, rn):
    return rn[:2] if rn[2] == 0 and rng.random() < 0.3 else rn


def pc_ops(rng, p, norb, nhop, reach, lat=None):
    ops = [dict(op="new_pc", lat=lat or rng.choice(M.LATS),
                org=rng.choice([[0, 0, 0], [3, -5, 7], [-20, 0, 11]]))]
    for i in range(norb):
        pos = [12 * rng.randint(-9, 13) for _ in range(3)]
        ops.append(dict(op="add_orbital", p=p, pos=pos, e=rng.choice([0, -3, 17, -250, i]),
                        lab=rng.choice(["X", "C", "pz"]), cart=rng.random() < 0.2))
    terms = []
    for _ in range(nhop):
        rn = [rng.randint(-r, r) for r in reach]
        i, j = rng.randrange(norb), rng.randrange(norb)
        if rn == [0, 0, 0] and i == j:
            if norb > 1:
                j = (i + 1) % norb
            else:
                rn = [1 if d == reach.index(max(reach)) else 0 for d in range(3)]
        terms.append(dict(rn=rn, i=i, j=j, v=list(rng.choice(VALS))))
    k = rng.randint(0, len(terms))
    for t in terms[:k]:
        ops.append(dict(op="add_hopping", p=p, **dict(t, rn=rn_arg(rng, t["rn"]))))
    seen, rest = set(), []
    for t in terms[k:]:
        key = (tuple(t["rn"]), t["i"], t["j"])
        con = (tuple(-x for x in t["rn"]), t["j"], t["i"])
        if key not in seen and con not in seen:
            seen.add(key)
            rest.append(t)
    if rest:
        ops.append(dict(op="add_hopping_dict", p=p, terms=rest))
    return ops, terms


def wide_pc(ctx, n, tag):
    """Primitive cells only: long histories of edits of large cells."""
    rng = ctx.rng("wide" + tag)
    out = []
    for x in range(n):
        norb = rng.choice([1, 4, 7, 11, 14])
        ops, terms = pc_ops(rng, 1, norb, rng.randint(5, 25),
                            [rng.choice([0, 1, 2, 9]), rng.choice([1, 3, 12]),
                             rng.choice([0, 1, 5])])
        ops.append(dict(op="read_pc", p=1))
        num = norb
        for _ in range(rng.randint(3, 8)):
            k = rng.choice(["rem", "rem", "hop", "hop", "get", "get", "orb", "set", "ham"])
            t = rng.choice(terms)
            ok = t["i"] < num and t["j"] < num
            if k == "rem" and num > 3:
                ix = [rng.randrange(num) for _ in range(rng.randint(1, 3))]
                ops.append(dict(op="remove_orbitals", p=1, ix=ix))
                num -= len(set(ix))
            elif k == "hop" and ok:
                if rng.random() < 0.5:       # the other orientation
                    t = dict(rn=[-v for v in t["rn"]], i=t["j"], j=t["i"], v=t["v"])
                ops.append(dict(op="add_hopping", p=1, **dict(t, v=list(rng.choice(VALS)))))
            elif k == "get" and ok:
                ops.append(dict(op="get_hopping", p=1, rn=t["rn"], i=t["i"], j=t["j"]))
            elif k == "set" and num:
                ops.append(dict(op="set_orbital", p=1, i=rng.randrange(num), lab="",
                                pos=rng.choice([[], [24, -36, 12], [60, 0]]),
                                e=rng.choice([99999, 5, -77])))
            elif k == "orb":
                ops.append(dict(op="add_orbital", p=1, pos=[12, 0, -24], e=1, lab="X"))
                num += 1
            ops.append(dict(op="read_pc", p=1))
        if rng.random() < 0.4:
            ops.append(dict(op="trim_pc", p=1))
            ops.append(dict(op="read_pc", p=1))
        if rng.random() < 0.4:
            ops.append(dict(op="apply_pbc", p=1, pbc=[rng.random() < 0.6 for _ in range(3)]))
            ops.append(dict(op="read_pc", p=1))
        out.append(dict(id="w%s%d" % (tag, x), cfg={}, ops=ops))
    return out


def sc_op(rng, p, norb, reach, maxorb):
    dim = [2 * r + 1 for r in reach]
    order = [rng.randrange(3)] * 12 + [rng.randrange(3) for _ in range(4)]
    rng.shuffle(order)
    for d in order:
        new = list(dim)
        new[d] += rng.choice([1, 1, 2, 5])
        if new[0] * new[1] * new[2] * norb <= maxorb:
            dim = new
    total = dim[0] * dim[1] * dim[2] * norb
    vac = []
    for _ in range(rng.choice([0, 0, 1, 5, 12, total // 3])):
        v = [rng.randrange(x) for x in dim] + [rng.randrange(norb)]
        if len(vac) < total - 3:
            vac.append(v)
    num = total - len(set(map(tuple, vac)))
    return dict(op="new_sc", p=p, dim=dim, pbc=[rng.random() < 0.6 for _ in range(3)],
                vac=vac, pm=rng.choice([0, 0, 0, 1, 2])), num


def reaches(rng):
    return rng.choice([[1, 0, 0], [2, 1, 0], [0, 3, 0], [0, 0, 2], [1, 1, 1],
                       [4, 0, 0], [1, 0, 2], [1, 1, 0]])


def wide_sc(ctx, n, tag, what, maxorb=420):
    """One large supercell: indices, expansion, modifiers, trimming."""
    rng = ctx.rng("wide" + tag)
    out = []
    for x in range(n):
        norb = rng.choice([1, 1, 2, 3, 5, 8])
        reach = reaches(rng)
        while norb > 1 and norb * (2 * reach[0] + 1) * (2 * reach[1] + 1) \
                * (2 * reach[2] + 1) > maxorb:
            norb -= 1
        ops, _ = pc_ops(rng, 1, norb, rng.randint(1, 7), reach)
        o, num = sc_op(rng, 1, norb, reach, maxorb)
        ops.append(o)
        dim, vac = o["dim"], o["vac"]

        def ids():
            ops.append(dict(op="sc2pc", s=1, ids=[rng.randrange(num) for _ in range(30)]
                            + [0, num - 1] + rng.choice([[], [], [num], [num + 40]])))
            good = [[rng.randrange(v) for v in dim] + [rng.randrange(norb)]
                    for _ in range(30)]
            if rng.random() < 0.8:
                good = [v for v in good if v not in vac] or good[:1]
            ops.append(dict(op="pc2sc", s=1, ids=good))
        if what == "ids":
            ids()
            new = [[rng.randrange(v) for v in dim] + [rng.randrange(norb)]
                   for _ in range(rng.randint(1, 9))]
            if num - len(new) > 3:
                ops.append(dict(op="add_vac", s=1, vac=new))
                vac = vac + new
                num = dim[0] * dim[1] * dim[2] * norb - len(set(map(tuple, vac)))
                ids()
            ops.append(dict(op="set_vac", s=1, vac=new[:1]))
            vac = new[:1]
            num = dim[0] * dim[1] * dim[2] * norb - 1
            if num > 0:
                ids()
        elif what == "mod":
            used = set()
            for _ in range(rng.randint(4, 25)):
                i, j = rng.randrange(num), rng.randrange(num)
                if rng.random() < 0.5:       # a likely neighbour
                    j = min(num - 1, i + rng.randint(1, norb + 2))
                if i == j or (min(i, j), max(i, j)) in used:
                    continue
                used.add((min(i, j), max(i, j)))
                ops.append(dict(op="sc_add_hop", s=1, i=i, j=j, v=list(rng.choice(VALS)),
                                rn=rng.choice([[0, 0], [0, 0, 0], [1, 0, 0], [0, -1, 0],
                                               [0, 0, 1], [1, -1, 1]])))
        ops.append(dict(op="read_sc", s=1, order=rng.randrange(4)))
        if what == "mod" and rng.random() < 0.5:
            ops.append(dict(op="trim_sc", s=1))
            ops.append(dict(op="read_sc", s=1))
        out.append(dict(id="w%s%d" % (tag, x), cfg={}, ops=ops))
    return out


def wide_sp(ctx, n, tag):
    """Samples of many supercells and inter-hopping containers."""
    rng = ctx.rng("wide" + tag)
    out = []
    for x in range(n):
        ops, num = [], []
        nsc = rng.randint(3, 6)
        lat = rng.choice(M.LATS)
        for s in range(nsc):
            norb, reach = rng.choice([1, 2]), rng.choice([[1, 0, 0], [0, 1, 0], [1, 1, 0]])
            a, _ = pc_ops(rng, s + 1, norb, rng.randint(1, 3), reach, lat)
            o, k = sc_op(rng, s + 1, norb, reach, 22)
            ops += a + [o]
            num.append(k)
        nih = rng.randint(1, 5)
        for h in range(nih):
            b, k = rng.sample(range(nsc), 2) if rng.random() < 0.9 else [0, 0]
            ops.append(dict(op="new_ih", bra=b + 1, ket=k + 1))
            for _ in range(rng.randint(1, 6)):
                ops.append(dict(op="ih_add", h=h + 1, i=rng.randrange(num[b]),
                                j=rng.randrange(num[k]), v=list(rng.choice(VALS)),
                                rn=[rng.randint(-2, 2) for _ in range(rng.choice([2, 3]))]))
            if rng.random() < 0.4:
                ops.append(dict(op="read_ih", h=h + 1))
        order = list(range(1, nsc + 1))
        rng.shuffle(order)
        ihs = list(range(1, nih + 1))
        rng.shuffle(ihs)
        ops.append(dict(op="new_sp", sc=order, ih=ihs, alien=False))
        ops.append(dict(op="read_sp", q=1))
        ops.append(dict(op="rescale", q=1, f=rng.choice([1, 2, 4])))
        ops.append(dict(op="read_sp", q=1))
        out.append(dict(id="w%s%d" % (tag, x), cfg={}, ops=ops))
    return out


def wide_net(ctx, n, tag, steps=24):
    """Networks of shared components: edits, unlocks, updates and reads."""
    rng = ctx.rng("wide" + tag)
    out = []
    for x in range(n):
        ops, num, has = [], [], []
        npc, nsc, nih, nsp = rng.randint(2, 4), rng.randint(3, 7), rng.randint(2, 5), \
            rng.randint(2, 5)
        lat = rng.choice(M.LATS)
        reach = rng.choice([[1, 0, 0], [0, 1, 0], [1, 1, 0]])
        for p in range(npc):
            has.append(rng.choice([1, 2]))
            ops += pc_ops(rng, p + 1, has[p], rng.randint(1, 3), reach, lat)[0]
        own = [rng.randrange(npc) for _ in range(nsc)]
        for s in range(nsc):
            o, k = sc_op(rng, own[s] + 1, has[own[s]], reach, 20)
            ops.append(o)
            num.append(k)
        ends, loose = [], set(range(nsc))
        for h in range(nih):
            b, k = rng.sample(range(nsc), 2)
            ends.append((b, k))
            loose -= {b, k}
            ops.append(dict(op="new_ih", bra=b + 1, ket=k + 1))
            for _ in range(rng.randint(1, 3)):
                ops.append(dict(op="ih_add", h=h + 1, i=rng.randrange(num[b]),
                                j=rng.randrange(num[k]), v=list(rng.choice(VALS)),
                                rn=[rng.randint(-1, 1) for _ in range(3)]))
        made = 0
        mods = set()

        def free(kind, m):
            if rng.random() < 0.7:
                ops.append(dict(op="unlock", kind=kind, n=m + 1))
        for t in range(steps):
            r = rng.random()
            if made < nsp and (r < 0.2 or not made):
                scs = rng.sample(range(nsc), rng.randint(1, nsc))
                ok = [h + 1 for h, (b, k) in enumerate(ends) if b in scs and k in scs]
                ops.append(dict(op="new_sp", sc=[s + 1 for s in scs], alien=False,
                                ih=rng.sample(ok, rng.randint(0, len(ok)))))
                made += 1
            elif r < 0.4:
                k = rng.choice(["pc", "pc", "sc", "sc", "ih"])
                m = dict(pc=npc, sc=nsc, ih=nih)[k]
                ops.append(dict(op="unlock", kind=k, n=rng.randint(1, m)))
            elif r < 0.55:
                p = rng.randrange(npc)
                free("pc", p)
                q = rng.random()
                if q < 0.4:
                    ops.append(dict(op="set_orbital", p=p + 1, i=0, pos=[], lab="",
                                    e=rng.randint(-9, 9)))
                else:
                    rn = [rng.randint(-v, v) for v in reach]
                    i, j = rng.randrange(has[p]), rng.randrange(has[p])
                    if rn == [0, 0, 0] and i == j:
                        rn = list(reach)
                    ops.append(dict(op="add_hopping", p=p + 1, rn=rn, i=i, j=j,
                                    v=list(rng.choice(VALS))))
            elif r < 0.65:
                s = rng.randrange(nsc)
                free("sc", s)
                i, j = rng.randrange(num[s]), rng.randrange(num[s])
                if i != j and (s, min(i, j), max(i, j)) not in mods and rng.random() < 0.6:
                    mods.add((s, min(i, j), max(i, j)))
                    ops.append(dict(op="sc_add_hop", s=s + 1, i=i, j=j, rn=[0, 0],
                                    v=list(rng.choice(VALS))))
                else:
                    ops.append(dict(op="set_posmod", s=s + 1, pm=rng.randrange(3)))
            elif r < 0.7:
                h = rng.randrange(nih)
                free("ih", h)
                b, k = ends[h]
                ops.append(dict(op="ih_add", h=h + 1, i=rng.randrange(num[b]),
                                j=rng.randrange(num[k]), v=list(rng.choice(VALS)),
                                rn=[rng.randint(-1, 1) for _ in range(3)]))
            elif r < 0.82:
                k = rng.choice(["pc", "sc", "sc", "ih", "sp", "sp"])
                m = dict(pc=npc, sc=nsc, ih=nih, sp=made)[k]
                ops.append(dict(op="update", kind=k, n=rng.randint(1, m)))
            elif r < 0.9:
                ops.append(rng.choice([
                    dict(op="init_hop", q=rng.randint(1, made), force=rng.random() < 0.3),
                    dict(op="init_eng", q=rng.randint(1, made), force=rng.random() < 0.3),
                    dict(op="rescale", q=rng.randint(1, made), f=rng.choice([1, 2, 4]))]))
            else:
                ops.append(rng.choice([
                    dict(op="read_pc", p=rng.randint(1, npc)),
                    dict(op="read_sc", s=rng.randint(1, nsc)),
                    dict(op="read_ih", h=rng.randint(1, nih)),
                    dict(op="read_sp", q=rng.randint(1, made))]))
        ops += [dict(op="read_sp", q=q + 1) for q in range(made)]
        ops += [dict(op="read_sc", s=s + 1) for s in range(nsc)]
        out.append(dict(id="w%s%d" % (tag, x), cfg={}, ops=ops))
    return out
