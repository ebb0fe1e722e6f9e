from builder_common import builder_plan
import wide as W


def plan(ctx):
    return builder_plan(ctx, [('fresh', 200, 2500, 50)],
                        [('sample', 5, 8)], wide=[
        W.wide_net(ctx, ctx.n(60, 1200), "net", 30)])
