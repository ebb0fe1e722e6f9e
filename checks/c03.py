from builder_common import builder_plan
import wide as W


def plan(ctx):
    return builder_plan(ctx, [('lock', 220, 2500, 50)],
                        [('lock', 6, 9)], wide=[
        W.wide_net(ctx, ctx.n(60, 1200), "net", 30)])
