"""C25: the parts of arrays that are sent and received at boundaries."""

CFG = 'SPECIFICATION Spec\nCONSTANTS MaxL = %d MaxN = %d Broken = "%s"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("RegionsMC", CFG % (2, ctx.size(3, 4), "no"))
    for b in ("shared", "narrow"):
        ctx.mutant("RegionsMC", CFG % (1, 2, b), b)
    n = ctx.size(400, 6000)
    sc = ctx.generate("RegionsGen", "MaxL = 3 Steps = 30", n, 60, "v")
    ctx.conform("regions", "RegionsTrace", sc, chunk=1500)
