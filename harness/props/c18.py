"""C18: nudging."""

CFG = "SPECIFICATION Spec\nCONSTANTS Names = {n} Values = {v} A = {a} C = {c} Eager = {e}\nINVARIANTS Atomic Relaxes\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    names, values = '{"a", "b", "c"}', "{0, 1}"
    for a, c in ctx.size([(6, 4), (4, 4)], [(6, 4), (4, 4), (8, 3), (12, 12), (5, 2)]):
        ctx.design("NudgeMC", CFG.format(n=names, v=values, a=a, c=c, e="FALSE"))
    ctx.mutant("NudgeMC", CFG.format(n=names, v=values, a=6, c=4, e="TRUE"), "nudging while computing")
    sc = ctx.generate("NudgeGen", "", ctx.size(600, 12000), 30, "n")
    ctx.conform("nudge", "NudgeTrace", sc, chunk=1500)
