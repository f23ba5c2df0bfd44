"""C27: conversions of instants and comparisons of units."""
CFG = "SPECIFICATION Spec\nCONSTANTS Before = %d Last = %d MaxText = %d Naive = %s\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    # thorough: every day of the years 1 to 9999
    ctx.design("InstantsMC", CFG % (ctx.size(60000, 719162), ctx.size(90000, 2932896), ctx.size(3, 4), "FALSE"))
    ctx.mutant("InstantsMC", CFG % (30000, 60000, 1, "TRUE"), "centuries are leap years")
    sc = ctx.generate("InstantsGen", "", ctx.size(2000, 40000), 12, "t")
    ctx.conform("instants", "InstantsTrace", sc, chunk=10000)
