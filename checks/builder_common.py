"""Groups of histories for the model-building state machine (spec/Builder)."""
import concurrent.futures as cf
import infra

GEN_CFG = ("INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Prof = \"{prof}\"\n Depth = {depth}\n")
MC_CFG = ("INIT Init\nNEXT Next\nINVARIANT Inv\nINVARIANT UpdateFresh\n"
          "CHECK_DEADLOCK FALSE\nCONSTANTS Alphabet = \"{a}\"\n MaxLevel = {n}\n")
ASSUME = ["numbers are small integers, so that floating point is exact",
          "histories stay in the domain of spec/BuilderGen (operator Sane)"]


def histories(ctx, prof, num, depth, shards=5):
    """Behaviours of spec/BuilderGen drawn by TLC."""
    def one(i):
        seed = ctx.rng(f"gen{prof}{i}").randrange(1, 2 ** 31)
        return infra.simulate(
            "BuilderGen", GEN_CFG.format(prof=prof, depth=depth), ctx.scratch,
            f"gen_{prof}_{i}", -(-num // shards), depth + 1, seed,
            timeout=ctx.n(400, 4000))
    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    return [dict(id=f"{prof}{i}-{n}", cfg={}, ops=ops)
            for i, scripts in enumerate(res) for n, ops in enumerate(scripts)]


def group(cases, tag="", shards=4):
    return dict(driver="d_builder", module="BuilderTrace", cases=cases,
                tag=tag, shards=shards)


def mc(alphabet, n):
    return ("MCBuilder", MC_CFG.format(a=alphabet, n=n), alphabet)


def builder_plan(ctx, profs, mcs, wide=()):
    groups = [group(c, tag="wide%d" % i) for i, c in enumerate(wide)]
    for prof, quick, thorough, depth in profs:
        groups.append(group(histories(ctx, prof, ctx.n(quick, thorough), depth),
                            tag=prof))
    return dict(mc=[mc(a, ctx.n(q, t)) for a, q, t in mcs], groups=groups,
                assumptions=ASSUME)
