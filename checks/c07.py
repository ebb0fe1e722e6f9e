from builder_common import builder_plan
import wide as W


def plan(ctx):
    return builder_plan(ctx, [('mod', 200, 2000, 50)],
                        [('lock', 5, 7)], wide=[
        W.wide_sc(ctx, ctx.n(25, 300), "mod", "mod"),
        W.wide_sp(ctx, ctx.n(40, 600), "sp")])
