from builder_common import builder_plan


def plan(ctx):
    return builder_plan(ctx, [('err', 300, 4000, 50)],
                        [('pc', 4, 5), ('lock', 5, 8)])
