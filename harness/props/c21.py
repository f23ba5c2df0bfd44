"""C21: capturing streams."""

CFG = 'SPECIFICATION Spec\nCONSTANTS Fds = {{1, 2, 3, 4, 5, 6, 7, 8}} MaxOps = {n} MaxOpen = 3 Broken = "{b}"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design("CaptureMC", CFG.format(n=ctx.size(6, 8), b="no"), timeout=800)
    for b in ("exception", "leak"):
        ctx.mutant("CaptureMC", CFG.format(n=6, b=b), b)
    sc = ctx.generate("CaptureGen", "", ctx.size(400, 8000), 60, "s")
    ctx.conform("capture_", "CaptureTrace", sc, chunk=2000)
