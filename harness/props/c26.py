"""C26: histories that use everything a model uses."""

CFG = 'SPECIFICATION Spec\nCONSTANTS N = %d Iface = %d Depth = %d Broken = "%s"\nINVARIANT Inv\nPROPERTY Keeps\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("SessionMC", CFG % (1, 0, ctx.size(7, 10), "no"))
    ctx.design("SessionMC", CFG % (2, 1, ctx.size(5, 7), "no"))
    for b in ("gather", "update"):
        ctx.mutant("SessionMC", CFG % (1, 0, 3, b), b)
    n = ctx.size(150, 2000)
    sc = ctx.generate("SessionGen", "MaxL = 1 MaxOps = 20", n, 220, "s")
    sc += ctx.generate("SessionGen", "MaxL = 2 MaxOps = 12", n // 6, 200, "S", 1)
    ctx.conform("session", "SessionTrace", sc, chunk=100)
