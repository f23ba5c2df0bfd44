"""C20: pooled buffers."""

CFG = 'SPECIFICATION Spec\nCONSTANTS Keys = {{1, 2}} Buffers = {b} Holders = {h} MaxWrites = {w} Broken = "{m}"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    h = ctx.size("{1, 2, 3}", "{1, 2, 3}")
    ctx.design("PoolMC", CFG.format(b=ctx.size("{1, 2, 3}", "{1, 2, 3, 4}"), h=h, w=ctx.size(2, 3), m="no"), timeout=800)
    for m in ("early", "key"):
        ctx.mutant("PoolMC", CFG.format(b="{1, 2, 3}", h=h, w=2, m=m), m)
    sc = ctx.generate("PoolGen", "", ctx.size(1200, 30000), 60, "b")
    ctx.conform("buffers", "PoolTrace", sc, chunk=2000)
