"""C07: histories of scatter and gather on tiles, cubes and the tiles of a cube."""


def run(ctx):
    ctx.design(
        "PartitionMC",
        "SPECIFICATION Spec\nCONSTANTS MaxP = 20 MaxM = 5\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n",
    )
    n = ctx.size(260, 2500)
    sc = ctx.generate("TransferGen", 'States = FALSE MaxOps = 9 Kinds = {"tile"} MaxRanks = 12 Sized = FALSE', n, 40, "t")
    sc += ctx.generate("TransferGen", 'States = FALSE MaxOps = 9 Kinds = {"cube"} MaxRanks = 12 Sized = FALSE', n // 2, 40, "c", 1)
    sc += ctx.generate("TransferGen", 'States = FALSE MaxOps = 9 Kinds = {"split"} MaxRanks = 12 Sized = FALSE', n // 4, 40, "s", 2)
    ctx.conform("transfer", "TransferTrace", sc, chunk=300)
