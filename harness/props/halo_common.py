"""C02, C03, C04: single updates against the geometry of the cube."""


def consts(kind, max_l, max_n, invalid, sized=False):
    return f'Kinds = {{"{kind}"}} MaxL = {max_l} MaxN = {max_n} Invalid = {"TRUE" if invalid else "FALSE"} Sized = {"TRUE" if sized else "FALSE"}'


def steps(full):
    """each update of a scenario is validated on its own"""
    out = []
    for rec in full:
        for step, run in zip([{}] + rec["more"], rec["runs"]):
            out.append({**{k: v for k, v in rec.items() if k not in ("more", "runs")}, **step, **run})
    return out


def run(ctx, kind):
    ctx.design("CubeMC", "CubeMC.cfg")
    n = ctx.size(90, 1200)
    sc = ctx.generate("HaloGen", consts(kind, 3, 7, False), n, 14, "g")
    sc += ctx.generate("HaloGen", consts(kind, 2, 4, True), n // 5, 14, "bad", salt=1)
    if ctx.thorough:
        sc += ctx.generate("HaloGen", consts(kind, 4, 3, False), 150, 14, "big", salt=2)
    ctx.conform("halo", "HaloTrace", sc, post=steps)
