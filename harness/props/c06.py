"""C06: exact cover (model), and slices and extents of the code for sampled layouts."""


def run(ctx):
    p, m = ctx.size((60, 6), (250, 8))
    ctx.design(
        "PartitionMC",
        f"SPECIFICATION Spec\nCONSTANTS MaxP = {p} MaxM = {m}\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n",
    )
    sc = []
    # every number of ranks along an axis
    for n in range(1, ctx.size(260, 800)):
        f = n % 2
        sc.append(
            {
                "id": f"axis{n}", "kind": "cube" if n % 3 == 0 else "tile",
                "layout": [n, 1] if n % 4 < 2 else [1, n],
                "dims": [
                    {"axis": "y" if n % 4 < 2 else "x", "iface": f, "cells": n * (1 + n % 5)},
                    {"axis": "o", "iface": 1 - f, "cells": 3},
                ],
            }
        )
    sc += ctx.generate("PartitionGen", f"MaxP = 130 MaxM = 40", ctx.size(900, 20000), 14, "p")
    ctx.conform("partition", "PartitionTrace", sc, chunk=4000,
        post=lambda full: [{"id": r["id"], **run} for r in full for run in r["runs"]])
