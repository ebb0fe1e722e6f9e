from fractions import Fraction

COS2 = {0: 2, 2: 1, 3: 0, 4: -1, 6: -2, 8: -1, 9: 0, 10: 1}     # 2 cos(2 pi k / 12)


def optimum(ref, A, w):
    """Least-squares parameters, None if they are not unique."""
    n, rows = len(A), range(len(ref) * len(ref[0]))
    nb = len(ref[0])
    wt = [Fraction(w[i % nb] ** 2) if w else Fraction(1) for i in rows]
    col = [[a[i // nb][i % nb] for i in rows] for a in A]
    rhs = [ref[i // nb][i % nb] for i in rows]
    m = [[sum(t * x * y for t, x, y in zip(wt, u, v)) for v in col + [rhs]] for u in col]
    for i in range(n):
        piv = next((r for r in range(i, n) if m[r][i]), None)
        if piv is None:
            return None
        m[i], m[piv] = m[piv], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for r in range(n):
            if r != i:
                m[r] = [x - m[r][i] * y for x, y in zip(m[r], m[i])]
    return [r[n] for r in m]


def new(rng):
    while True:
        o, nm = draw(rng)
        if o["w"] and len(o["w"]) != len(o["ref"][0]):
            return o, nm
        p = optimum(o["ref"], o["A"], o["w"])
        if p and all(abs(x) < 50 for x in p):
            return o, nm


def draw(rng):
    nm = rng.randint(1, 3)
    if nm > 1 and rng.random() < 0.5:
        nk = rng.randint(nm, 6)
        ks = [rng.choice(list(COS2)) for _ in range(nk)]
        A = [[[1] for _ in ks]] + [[[COS2[(m * k) % 12]] for k in ks] for m in range(1, nm)]
        nb, chain = 1, True
    else:
        nb = rng.randint(1, 4)
        nk = rng.randint(-(-nm // nb), 4)
        ks = [rng.randint(0, 11) for _ in range(nk)]
        A = [[[rng.randint(-2, 2) for _ in range(nb)] for _ in range(nk)] for _ in range(nm)]
        chain = False
    if rng.random() < 0.3:                  # the model can reach the reference
        p = [rng.randint(-3, 3) for _ in range(nm)]
        ref = [[sum(p[m] * A[m][k][b] for m in range(nm)) for b in range(nb)]
               for k in range(nk)]
    else:
        ref = [[rng.randint(-5, 5) for _ in range(nb)] for _ in range(nk)]
    w = []
    if rng.random() < 0.7:
        w = [rng.randint(-3, 3) for _ in range(nb)]
        if not any(w):
            w[0] = rng.choice([-2, 1])
        r = rng.random()
        if r < 0.05:
            w.append(1)
        elif r < 0.1 and nb > 1:
            w.pop()
            if not any(w):
                w[0] = 1
    return dict(op="new", ref=ref, A=A, w=w, ks=ks, chain=chain), nm


def cases(ctx):
    rng = ctx.rng("fit")
    out = []
    for n in range(ctx.n(250, 6000)):
        o, nm = new(rng)
        ops = [o]
        for _ in range(rng.randint(3, 7)):
            p0 = [rng.randint(-3, 3) for _ in range(nm)]
            r = rng.random()
            if r < 0.4:
                ops.append(dict(op="err", p0=p0))
            elif r < 0.5:
                ops.append(dict(op="touch"))
            else:
                ops.append(dict(op="fit", p0=p0, few=int(rng.random() < 0.2),
                                full=rng.random() < 0.2, aslist=rng.random() < 0.3))
            if rng.random() < 0.1:
                o, nm = new(rng)
                ops.append(o)
                if o["w"] and len(o["w"]) != len(o["ref"][0]):
                    break
        out.append(dict(id=f"f{n}", cfg={}, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCFit", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
             "CONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"), "fit")],
        groups=[dict(driver="d_fit", module="FitTrace", cases=cases(ctx), shards=4)],
        assumptions=["models linear in at most three parameters, with a unique optimum, "
                     "at most four bands or six k-points"])
