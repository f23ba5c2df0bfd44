"""C10: histories of transpositions, conversions and constructions."""
from props.c09 import LAWS


def run(ctx):
    ctx.design("QuantityMC", LAWS % ctx.size(1, 3), timeout=800)
    sc = ctx.generate("QuantityGen", 'Mode = "meta" MaxOps = 12', ctx.size(500, 8000), 120, "m")
    ctx.conform("quantity_", "QuantityTrace", sc, chunk=500)
