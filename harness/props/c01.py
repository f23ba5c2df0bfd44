"""C01: all ranks and directions of all layouts, and histories of queries."""


def run(ctx):
    ctx.design("CubeMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT MaxL = {ctx.size(5, 8)}\nCHECK_DEADLOCK FALSE\n")
    sc = []
    # exhaustive: every rank and direction of every layout, in a random order
    for L in list(range(1, ctx.size(8, 13))) + ([] if not ctx.thorough else [16, 24]):
        asks = [(b, r) for r in range(6 * L * L) for b in range(8)]
        ctx.rng.shuffle(asks)
        step = 800
        for at in range(0, len(asks), step):
            sc.append(
                {
                    "id": f"cube{L}.{at}",
                    "insts": [{"kind": "cube", "ly": L, "lx": L, "of": 0}],
                    "ops": [{"op": "query", "inst": 1, "b": b, "rank": r} for b, r in asks[at : at + step]],
                }
            )
    top = ctx.size(6, 10)
    for ly in range(1, top):
        for lx in range(1, top):
            sc.append(
                {
                    "id": f"tile{ly}x{lx}",
                    "insts": [{"kind": "tile", "ly": ly, "lx": lx, "of": 0}],
                    "ops": [
                        {"op": "query", "inst": 1, "b": b, "rank": r}
                        for r in range(ly * lx) for b in range(8)
                    ],
                }
            )
    # large layouts: ranks at and next to the edges and corners of a face, and others
    for L in ctx.size([11, 12, 13, 16, 17, 23, 33], [14, 15, 17, 18, 23, 32, 33, 46, 47, 64, 100]):
        some = set()
        while len(some) < ctx.size(150, 600):
            row, col = (ctx.rng.choice([0, 1, L // 2, L - 2, L - 1, ctx.rng.randrange(L)]) for _ in "yx")
            some.add((ctx.rng.randrange(8), ctx.rng.randrange(6) * L * L + row * L + col))
        sc.append(
            {
                "id": f"large{L}",
                "insts": [{"kind": "cube", "ly": L, "lx": L, "of": 0}],
                "ops": [{"op": "query", "inst": 1, "b": b, "rank": r} for b, r in sorted(some)],
            }
        )
    for ly, lx in [(1, 300), (300, 1), (17, 20), (13, 12), (2, 150), (40, 7)]:
        some = sorted({(ctx.rng.randrange(8), ctx.rng.randrange(ly * lx)) for _ in range(150)})
        sc.append(
            {
                "id": f"largetile{ly}x{lx}",
                "insts": [{"kind": "tile", "ly": ly, "lx": lx, "of": 0}],
                "ops": [{"op": "query", "inst": 1, "b": b, "rank": r} for b, r in some],
            }
        )
    n = ctx.size(150, 3000)
    sc += ctx.generate("TopoGen", f"MaxL = 3 Steps = {ctx.size(80, 200)}", n, 400, "h")
    ctx.report.extra["exhaustive_layouts"] = f"all ranks and directions for L < {ctx.size(8, 13)}"
    ctx.conform("topo", "TopoTrace", sc, chunk=1500)
