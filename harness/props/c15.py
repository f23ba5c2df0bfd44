"""C15: histories ending in an inconsistent state; histories of times."""
from props import c14


def run(ctx):
    c14.design(ctx)
    sc = ctx.generate("ZarrGen", "Changes = TRUE Alone = TRUE MaxRanks = 24", ctx.size(250, 4000), 30, "x")
    sc += ctx.generate("ZarrGen", "Changes = TRUE Alone = FALSE MaxRanks = 12", ctx.size(40, 500), 30, "n", 1)
    sc += ctx.generate("ZarrGen", "Changes = FALSE Alone = TRUE MaxRanks = 24", ctx.size(100, 2000), 30, "t", 2)
    # more times than a chunk of the time axis holds
    rows = [[2016, 1 + k // 336, 1 + k // 12 % 28, k % 12 * 7200 + k] for k in range(1040)]
    sc.append({
        "id": "long", "layout": [1, 1], "nf": 0, "nrows": len(rows), "seed": 1, "policy": "stay", "sync": False,
        "backing": "dict", "calendar": "julian", "alone": True, "mode": "w", "fams": [], "rows": rows,
        "change": "none", "target": 1, "other": "",
    })
    ctx.conform("monitor", "ZarrTrace", sc, chunk=500)
