"""C09: histories of reads and writes through views."""
LAWS = "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("QuantityMC", LAWS % ctx.size(1, 3), timeout=800)
    sc = ctx.generate("QuantityGen", 'Mode = "view" MaxOps = 14', ctx.size(700, 8000), 120, "v")
    ctx.conform("quantity_", "QuantityTrace", sc, chunk=500)
