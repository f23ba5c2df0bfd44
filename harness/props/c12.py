"""C12: histories of rotations of scalar and vector fields."""
CFG = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Flip = %s\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("RotateMC", CFG % (ctx.size(2, 3), "FALSE"))
    ctx.mutant("RotateMC", CFG % (1, "TRUE"), "components turned the other way")
    sc = ctx.generate("RotateGen", "", ctx.size(700, 12000), 30, "r")
    ctx.conform("rotate_", "RotateTrace", sc, chunk=1000)
