"""Driver for histories of corner fills (C11)."""
import numpy as np

import drv
import fv3gfs.util as util
from halo import quantity


def handle(sc):
    q = quantity(util, sc["dims"], 1, sc["dtype"], sc["mem"], special=sc["special"])
    part = util.TilePartitioner(tuple(sc["layout"]))
    rec = {"start": drv.encode(q.data), "obs": []}
    top = q.data.size + 1
    for op in sc["ops"]:
        o = {"error": False}
        if op["op"] == "write":
            ids = np.arange(top, top + q.data.size).reshape(q.data.shape)
            q.data[...] = drv.fill(ids, q.data.dtype, sc["special"])
            top += q.data.size
        else:
            try:
                util.fill_scalar_corners(q, op["dir"], part, sc["rank"], op["n"])
            except Exception as e:
                o["error"] = True
                o["why"] = repr(e)[:200]
        o["d"] = drv.encode(q.data)
        rec["obs"].append(o)
    return rec


if __name__ == "__main__":
    drv.main(handle)
