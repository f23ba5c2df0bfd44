"""C11: histories of corner fills on ranks of all kinds of layouts."""
CFG = "SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("CornersMC", CFG % (ctx.size(3, 8), "Agree"))
    ctx.mutant("CornersMC", CFG % (2, "NoSkip"), "shared edge point is not skipped")
    sc = ctx.generate("CornersGen", "", ctx.size(700, 12000), 30, "f")
    ctx.conform("corners", "CornersTrace", sc, chunk=1000)
