"""C13: allocations with sizes of the decomposed grid; halo updates and transfers of them."""
from props.halo_common import consts, steps

CFG = "SPECIFICATION Spec\nCONSTANTS MaxRanks = %d MaxCells = %d MaxHalo = %d Lean = %s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("SizerMC", CFG % (ctx.size(6, 12), ctx.size(6, 12), ctx.size(4, 8), "FALSE"))
    ctx.mutant("SizerMC", CFG % (2, 2, 2, "TRUE"), "no room for the last interface")
    sc = ctx.generate("SizerGen", "", ctx.size(800, 15000), 20, "s")
    ctx.conform("sizer_", "SizerTrace", sc, chunk=5000)
    n = ctx.size(12, 200)
    sc = []
    for salt, kind in enumerate(("scalar", "vector", "sync")):
        sc += ctx.generate("HaloGen", consts(kind, 2, 3, False, True), n, 14, kind, salt=10 + salt)
    ctx.conform("halo", "HaloTrace", sc, post=steps)
    sc = ctx.generate(
        "TransferGen", 'States = FALSE MaxOps = 5 Kinds = {"tile"} MaxRanks = 12 Sized = TRUE', 2 * n, 40, "t", 20
    )
    sc += ctx.generate(
        "TransferGen", 'States = FALSE MaxOps = 5 Kinds = {"cube"} MaxRanks = 12 Sized = TRUE', n, 40, "c", 21
    )
    ctx.conform("transfer", "TransferTrace", sc, chunk=300)
