"""Driver for histories of rotations of arrays (C12)."""
import numpy as np

import drv
import fv3gfs.util as util
from fv3gfs.util.boundary import SimpleBoundary
from fv3gfs.util.rotate import rotate_scalar_data, rotate_vector_data
from halo import NAMES, make_array

SWAP = {"x": "y", "y": "x", "o": "o"}


def fill(ids, sc):
    a = drv.fill(ids, sc["dtype"])
    if sc["special"] and a.dtype.kind == "f":  # NaN has no sign
        a[ids % 4 == 0] = np.inf
    return a


def handle(sc):
    axes = sc["axes"]
    V, top = [], 1
    for s in sc["shapes"]:
        n = int(np.prod(s))
        V.append(make_array(s, fill(np.arange(top, top + n), sc), sc["dtype"], sc["mem"]))
        top += n
    rec = {"start": [drv.encode(a) for a in V], "obs": []}
    for op in sc["ops"]:
        dims = [
            NAMES[a, f] if a != "o" else ("z", "z_interface")[f] + str(k) * (k > 0)
            for k, (a, f) in enumerate(zip(axes, op["names"]))
        ]
        n, o = op["n"], {"error": False, "none": False}
        before = V
        try:
            if op["op"] == "scalar":
                V = [rotate_scalar_data(a, dims, np, n) for a in before]
            elif op["op"] == "vector":
                V = list(rotate_vector_data(before[0], before[1], n, dims, np))
            elif op["op"] == "inplace":
                b = SimpleBoundary(0, 1, n_clockwise_rotations=n, boundary_type=0)
                V = [make_array(a.shape, a, a.dtype, sc["mem"]) for a in before]
                b.rotate(V[1], V[0])
            else:
                L = op["L"]
                part = util.CubedSpherePartitioner(util.TilePartitioner((L, L)))
                b = part.boundary(op["bt"], op["rank"])
                o["none"] = b is None
                if b is not None:
                    V = [make_array(a.shape, a, a.dtype, sc["mem"]) for a in before]
                    b.rotate(V[1], V[0])
            if op["op"] in ("scalar", "vector") and n % 2 and not {"x", "y"} <= set(axes):
                axes = [SWAP[a] for a in axes]
        except Exception as e:
            o.update(error=True, why=repr(e)[:200])
        o["inputs"] = [drv.encode(a) for a in before]
        o["shapes"] = [[int(k) for k in a.shape] for a in V]
        o["d"] = [drv.encode(a) for a in V]
        rec["obs"].append(o)
    return rec


if __name__ == "__main__":
    drv.main(handle)
