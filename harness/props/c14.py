"""C14: histories of states stored by all ranks of a cubed-sphere run."""
CFG = (
    "SPECIFICATION Spec\nCONSTANTS Ranks = %d CellsPer = %d Iface = %d Rows = %d Broken = \"%s\"\n"
    "INVARIANTS InRange NoSharing Complete\n"
)


def design(ctx):
    for r, m, f, k in ctx.size([(3, 2, 1, 2), (2, 2, 0, 3)], [(3, 2, 1, 3), (4, 1, 1, 2), (3, 3, 0, 4), (2, 3, 1, 5)]):
        ctx.design("ZarrMC", CFG % (r, m, f, k, ""))
    for broken in ctx.size(["chunks over points"], ["chunks over points", "one chunk", "overlap", "no broadcast"]):
        ctx.mutant("ZarrMC", CFG % (3, 1, 1, 2, broken), broken)


def run(ctx):
    design(ctx)
    sc = ctx.generate("ZarrGen", "Changes = FALSE Alone = FALSE MaxRanks = 24", ctx.size(100, 2000), 30, "m")
    ctx.conform("monitor", "ZarrTrace", sc, chunk=300)
