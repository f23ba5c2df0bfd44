"""C24: the arithmetic of ranks, tiles and places, asked in histories and found by ranks."""

CFG = 'SPECIFICATION Spec\nCONSTANTS MaxL = %d Broken = "%s"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("RanksMC", CFG % (ctx.size(7, 11), "no"))
    for b in ("counterclockwise", "upsidedown"):
        ctx.mutant("RanksMC", CFG % (4, b), b)
    sc = []
    # exhaustive: every question about every rank of small layouts, in a random order
    top = ctx.size(5, 8)
    for ly in range(1, top):
        for lx in range(1, top):
            insts = [
                {"kind": "cube", "ly": ly, "lx": lx, "of": 0, "make": "tuple"},
                {"kind": "tile", "ly": ly, "lx": lx, "of": 1, "make": ""},
            ]
            asks = [(q, 1, r) for q in ("tile", "root") for r in range(6 * ly * lx)]
            asks += [
                (q, 2, r) for q in ("subtile", "left", "right", "top", "bottom")
                for r in range(6 * ly * lx)
            ]
            moves = ("mirror", "noturn", "halfturn")
            if ly == lx:
                moves += ("turn", "threeturns", "fullturn", "backturn", "fiveturns", "halfback")
            asks += [(q, 2, r) for q in moves for r in range(ly * lx)]
            ctx.rng.shuffle(asks)
            sc.append(
                {
                    "id": f"all{ly}x{lx}", "kind": "ask", "insts": insts,
                    "ops": [
                        {"q": q, "inst": i, "np": bool(ctx.rng.randrange(2)), "rank": r, "total": 0}
                        for q, i, r in asks
                    ],
                }
            )
    # large layouts
    for ly, lx in ctx.size([(16, 16), (24, 7), (3, 130), (129, 2), (31, 31)], [(64, 64), (48, 48), (100, 3), (1, 999), (999, 1), (37, 41), (90, 90)]):
        ops = []
        for _ in range(ctx.size(400, 3000)):
            q, i = ctx.rng.choice(
                [("tile", 1), ("root", 1)] + [(q, 2) for q in ("subtile", "left", "right", "top", "bottom")]
                + [("mirror", 2), ("turn" if ly == lx else "mirror", 2)]
            )
            n = ly * lx
            r = ctx.rng.choice([0, lx - 1, n - lx, n - 1, ctx.rng.randrange(n), ctx.rng.randrange(n)])
            if q not in ("mirror", "turn"):
                r += n * ctx.rng.randrange(6)
            ops.append({"q": q, "inst": i, "np": bool(ctx.rng.randrange(2)), "rank": r, "total": 0})
        sc.append(
            {
                "id": f"large{ly}x{lx}", "kind": "ask", "ops": ops,
                "insts": [
                    {"kind": "cube", "ly": ly, "lx": lx, "of": 0, "make": "tuple"},
                    {"kind": "tile", "ly": ly, "lx": lx, "of": 1, "make": ""},
                ],
            }
        )
    # first and last ranks of every tile, for many numbers of ranks
    for lo in range(1, ctx.size(420, 2500), 20):
        ops = [
            {"q": q, "inst": 0, "np": t % 3 == 0, "rank": r, "total": 6 * t}
            for t in range(lo, lo + 20)
            for k in range(6)
            for r in (k * t, (k + 1) * t - 1)
            for q in ("indexof", "numberof")
        ]
        ctx.rng.shuffle(ops)
        sc.append({"id": f"totals{lo}", "kind": "ask", "insts": [], "ops": ops})
    n = ctx.size(200, 2000)
    consts = "MaxL = {} Steps = {} Running = {}"
    sc += ctx.generate("RanksGen", consts.format(9, 80, "FALSE"), n, 400, "h")
    sc += ctx.generate("RanksGen", consts.format(4, 0, "TRUE"), n // 4, 5, "r", 1)
    ctx.conform("ranks_", "RanksTrace", sc, chunk=1500)
