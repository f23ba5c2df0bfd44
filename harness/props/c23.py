"""C23: the timer of a communicator, in histories of updates and of switching it."""

CFG = 'SPECIFICATION Spec\nCONSTANTS MaxUps = %d Broken = "%s"\nINVARIANT Inv\nPROPERTY NeverRefused\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("CommTimerMC", CFG % (ctx.size(3, 4), "no"))
    for b in ("spanning", "failure", "unmatched"):
        ctx.mutant("CommTimerMC", CFG % (2, b), b)
    mix = "MaxL = {} MaxOps = {} MaxFields = 3 Deliveries = {{{}}} SameOrder = {} Timers = TRUE"
    n = ctx.size(40, 600)
    sc = ctx.generate("HaloMixGen", mix.format(1, 14, '"eager"', "FALSE"), n, 60, "x")
    sc += ctx.generate("HaloMixGen", mix.format(1, 14, '"rendezvous", "mixed"', "TRUE"), n, 60, "X", 1)
    sc += ctx.generate("HaloMixGen", mix.format(2, 8, '"eager"', "FALSE"), n // 8, 60, "y", 2)
    ctx.conform("halo_async", "HaloAsyncTrace", sc, chunk=120)
