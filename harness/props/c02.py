from props import halo_common


def run(ctx):
    halo_common.run(ctx, "scalar")
