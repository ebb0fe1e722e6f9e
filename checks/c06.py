from builder_common import builder_plan
import wide as W


def plan(ctx):
    return builder_plan(ctx, [('expand', 200, 2000, 40)],
                        [('lock', 5, 7)], wide=[
        W.wide_sc(ctx, ctx.n(40, 500), "exp", "exp")])
