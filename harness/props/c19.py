"""C19: timers."""

CFG = 'SPECIFICATION Spec\nCONSTANTS Names = {n} MaxNow = {now} MaxLog = {log} Broken = "{b}"\nINVARIANTS Inv NothingRunsWhenOff\nPROPERTY BlocksStop\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("TimerMC", CFG.format(n='{"a", "b"}', now=2, log=ctx.size(4, 5), b="no"), timeout=800)
    for b in ("exception", "reset", "disable"):
        ctx.mutant("TimerMC", CFG.format(n='{"a", "b"}', now=2, log=4, b=b), b)
    sc = ctx.generate("TimerGen", "", ctx.size(1500, 30000), 165, "t")
    ctx.conform("timer_", "TimerTrace", sc, chunk=3000)
