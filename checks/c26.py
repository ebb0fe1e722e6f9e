SLOTS = ["a", "bands", "long name", "x:y", "Z2"]
PARS = [("generic", k) for k in ("Bessel_max", "mu", "nr_time_steps", "nr_random_samples",
                                 "seed", "wfn_check_steps", "nr_Fermi_fft_steps")] \
    + [("LDOS", k) for k in ("delta", "recursion_depth")] \
    + [("dyn_pol", k) for k in ("coulomb_constant", "background_dielectric_constant")] \
    + [("dckb", k) for k in ("n_kernel", "direction", "ne_integral")]


def timer(rng):
    ops = []
    names = rng.sample(SLOTS, rng.randint(1, 4))
    run = {1: set(), 2: set()}
    for _ in range(rng.randint(10, 30)):
        i = rng.choice([1, 1, 2])
        r = rng.random()
        s = rng.choice(names)
        if r < 0.25:
            ops.append(dict(op="adv", dt=rng.randint(0, 900)))
        elif r < 0.5:
            ops.append(dict(op="tic", i=i, slot=s))
            run[i].add(s)
            if rng.random() < 0.6:
                ops.append(dict(op="adv", dt=rng.randint(1, 900)))
        elif r < 0.75:
            if run[i] and rng.random() < 0.8:
                s = rng.choice(sorted(run[i]))
            ops.append(dict(op="toc", i=i, slot=s))
            run[i].discard(s)
        elif r < 0.98:
            if rng.random() < 0.7:
                for s in sorted(run[i]):
                    ops.append(dict(op="toc", i=i, slot=s))
                run[i].clear()
            ops.append(dict(op="rep", i=i, which=rng.choice(["tot", "last"])))
        else:
            ops.append(dict(op="rst", i=i))
            run[i].clear()
    return ops


def bar(rng):
    n = rng.choice([rng.randint(1, 12), rng.randint(1, 40), 50])
    s = rng.choice([10, 10, rng.randint(1, 12)])
    return [dict(op="bar", n=n, s=s, named=rng.random() < 0.5)] + [dict(op="cnt")] * n


def config(rng):
    ops = []
    for _ in range(rng.randint(6, 14)):
        i = rng.choice([1, 2])
        r = rng.random()
        if r < 0.2:
            ops.append(dict(op="temp", i=i, temp=rng.choice([300, 1, 10, 77, 1000, 2500]),
                            dflt=rng.random() < 0.5))
        elif r < 0.5:
            s, k = rng.choice(PARS)
            ops.append(dict(op="par", i=i, sec=s, key=k, v=rng.randint(0, 99)))
        elif r < 0.6:
            s = rng.choice(["generic", "LDOS", "dyn_pol", "dckb"])
            ops.append(dict(op="wrong", i=i, sec=s,
                            key=rng.choice(["nr_ran_samples", "Seed", "delta_", "x"])))
            ops.append(dict(op="check", i=i, how=rng.choice(["check", "solver", "analyzer"])))
        elif r < 0.66:
            ops.append(dict(op="newc", i=i))
        elif r < 0.8:
            ops.append(dict(op="check", i=i, how=rng.choice(["check", "solver", "analyzer"])))
        else:
            ops.append(dict(op="store", i=i, again=rng.random() < 0.4))
        if rng.random() < 0.4:
            ops.append(dict(op="conf"))
    return ops + [dict(op="conf")]


def cases(ctx):
    rng = ctx.rng("tool")
    out = []
    for n in range(ctx.n(480, 6000)):
        r = n % 6
        if r < 3:
            ops = timer(rng)
        elif r == 3:
            ops = bar(rng)
        elif r == 4:
            ops = config(rng)
        else:
            ops = [dict(op="seeds", n=rng.randint(0, 12), fake=rng.random() < 0.7,
                        r=rng.randrange(10**6)) for _ in range(4)]
            w = rng.choice(["", "x", "Bands", "two words"])
            ops += [dict(op="banner", word=w, width=rng.randint(len(w) + 6, 90),
                         mark=rng.choice("-=*"), end=rng.choice("#|"),
                         block=rng.random() < 0.5) for _ in range(3)]
        out.append(dict(id=f"u{n}", cfg={}, ops=ops))
    return out


def plan(ctx):
    return dict(
        mc=[("MCTool", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
             "CONSTANT Big = %s\n" % ctx.n("FALSE", "TRUE"), "tool")],
        groups=[dict(driver="d_tool", module="ToolTrace", cases=cases(ctx), shards=4)],
        assumptions=["the clock and the entropy source are replaced by recorded ones"])
