from builder_common import builder_plan
import wide as W


def plan(ctx):
    return builder_plan(ctx, [('ids', 200, 2000, 45)],
                        [('lock', 5, 8)], wide=[
        W.wide_sc(ctx, ctx.n(30, 400), "ids", "ids")])
