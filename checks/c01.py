from builder_common import builder_plan
import wide as W


def plan(ctx):
    return builder_plan(ctx, [('hop', 250, 4000, 45)],
                        [('pc', 4, 6)], wide=[
        W.wide_pc(ctx, ctx.n(60, 1200), "pc")])
