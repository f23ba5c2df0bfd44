"""Driver for the parts of arrays at boundaries (C25)."""
import numpy as np

import drv
import fv3gfs.util as util
from halo import quantity


def handle(sc):
    cube, tile = sc["layouts"]
    insts = [
        util.CubedSpherePartitioner(util.TilePartitioner(tuple(cube))),
        util.TilePartitioner(tuple(tile)),
    ]
    qs = [
        quantity(util, q["dims"], 1000 * (k + 1) + 1, q["dtype"], q["mem"], special=q["special"])
        for k, q in enumerate(sc["qs"])
    ]

    def arrays():
        return [drv.encode(q.data) for q in qs]

    def given(k, size):
        return 100000 * k + 1 + np.arange(size)

    first, parts, answers = arrays(), {}, []
    for k, op in enumerate(sc["ops"], 1):
        a = dict(op)
        if op["op"] == "view":
            a.update(none=False, error="", shape=[], values=[])
            boundary = insts[op["inst"] - 1].boundary(op["b"], op["rank"])
            if boundary is None:
                a["none"] = True
            else:
                try:
                    v = (boundary.send_view if op["inner"] else boundary.recv_view)(
                        qs[op["q"] - 1], n_points=op["n"]
                    )
                    a.update(shape=list(v.shape), values=drv.encode(v))
                    parts[k] = v
                except util.OutOfBoundsError as e:
                    a["error"] = "OutOfBoundsError"
                except Exception as e:
                    a["error"] = repr(e)[:100]
        elif op["op"] == "fill":
            a["arrays"] = []
            if op["of"] in parts:
                v = parts[op["of"]]
                v[...] = drv.fill(given(k, v.size), v.dtype, sc["qs"][sc["ops"][op["of"] - 1]["q"] - 1]["special"]).reshape(v.shape)
                a["arrays"] = arrays()
        elif op["op"] == "look":
            a["values"] = drv.encode(parts[op["of"]]) if op["of"] in parts else []
        else:
            data = qs[op["q"] - 1].data
            data[...] = drv.fill(given(k, data.size), data.dtype, sc["qs"][op["q"] - 1]["special"]).reshape(data.shape)
        answers.append(a)
    return {"layouts": sc["layouts"], "qs": sc["qs"], "first": first, "answers": answers}


if __name__ == "__main__":
    drv.main(handle)
