"""C22: the stand-in communicator for tests."""

CFG = 'SPECIFICATION Spec\nCONSTANTS N = {n} MaxOps = {k} Free = "{f}"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("DummyMC", CFG.format(n=2, k=ctx.size(5, 6), f="no"), timeout=800)
    if ctx.thorough:
        ctx.design("DummyMC", CFG.format(n=3, k=5, f="no"), name="DummyMC 3 ranks", timeout=800)
    # what the stand-in leaves out: see the fixed histories below
    for f in ("tags", "order", "gather"):
        ctx.mutant("DummyMC", CFG.format(n=2, k=6, f=f), f"stand-in used with {f}")
    sc = ctx.generate("DummyGen", "Shared = FALSE", ctx.size(2500, 40000), 60, "d")
    ctx.conform("dummy", "DummyTrace", sc + fixed(), chunk=4000)


def op(kind, rank, **kw):
    return dict({"op": kind, "grp": 1, "rank": rank, "peer": 0, "tag": 0, "no": 0, "root": 0, "block": True}, **kw)


def fixed():
    everyone = {"split": 0, "colour": 0, "ranks": [0, 1]}
    base = {"n": 2, "shape": [3], "dtype": "float64", "splits": [], "groups": [everyone]}
    return [
        dict(base, id="gather-again", ops=[op("gather", 1), op("gather", 0), op("gather", 0)]),
        dict(base, id="gather-ahead", ops=[op("gather", 1), op("gather", 1), op("gather", 0)]),
        dict(base, id="tags", ops=[
            op("send", 0, peer=1, tag=1), op("send", 0, peer=1, tag=2),
            op("recv", 1, peer=0, tag=2), op("recv", 1, peer=0, tag=1)]),
        dict(base, id="waits-reordered", ops=[
            op("post", 1, peer=0, no=1), op("post", 1, peer=0, no=2), op("send", 0, peer=1), op("send", 0, peer=1),
            op("wait", 1, no=2), op("wait", 1, no=1)]),
        dict(base, id="split-together", splits=[[0, 0]],
             groups=[everyone, {"split": 1, "colour": 0, "ranks": [0, 1]}],
             ops=[op("bcast", 0, grp=2), op("bcast", 1, grp=2)]),
        dict(base, id="split-again", splits=[[0, 1], [0, 1]],
             groups=[everyone, {"split": 1, "colour": 0, "ranks": [0]}, {"split": 2, "colour": 0, "ranks": [0]}],
             ops=[op("barrier", 0, grp=2), op("barrier", 0, grp=3)]),
    ]
