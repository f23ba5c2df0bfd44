"""Driver for allocations with sizes of the decomposed grid (C13)."""
import numpy as np

import drv
import fv3gfs.util as util

EXTRAS = ["land", "radiation", "tracer", "x_soil"]


def sizer_of(util, layout, cells, nz, halo, extra, how="params", part=False, rank=0):
    ny, nx = (int(c * n) for c, n in zip(cells, layout))
    kw = {}
    if part:
        kw = {"tile_partitioner": util.TilePartitioner(tuple(layout)), "tile_rank": rank}
    if how == "namelist":
        nml = {"fv_core_nml": {"npx": nx + 1, "npy": ny + 1, "npz": nz, "layout": list(layout)}}
        return util.SubtileGridSizer.from_namelist(nml, **kw)
    return util.SubtileGridSizer.from_tile_params(
        nx_tile=nx, ny_tile=ny, nz=nz, n_halo=halo, extra_dim_lengths=extra,
        layout=tuple(layout), **kw,
    )


def allocate(util, sizer, Q, first, dtype, names, units="m", special=False):
    """a quantity of the factory holding `first`, `first` + 1, ..."""
    q = util.QuantityFactory(sizer, np).empty(names, units, dtype=np.dtype(dtype))
    ids = np.arange(first, first + q.data.size).reshape(q.data.shape)
    q.data[...] = drv.fill(ids, q.data.dtype, special)
    return q


def given_as(name, how):
    """a dtype in one of the forms that numpy takes"""
    dt = np.dtype(name)
    python = {"float64": float, "int64": int, "bool": bool, "complex128": complex}
    return {"dtype": dt, "name": name, "python": python.get(name, name), "type": dt.type if dt.isnative else dt}[how]


class Backend:
    """allocates like numpy, and is told where the compute domain starts"""

    def __init__(self):
        self.told = None

    def __getattr__(self, name):
        if name not in ("empty", "zeros", "ones"):
            raise AttributeError(name)

        def allocate(shape, dtype=float, default_origin=None):
            self.told = default_origin
            return getattr(np, name)(shape, dtype=dtype)

        return allocate


def handle(sc):
    extra = {n: v for n, v in zip(EXTRAS, sc["extra"]) if v}
    rec = {"error": "", "obs": []}
    try:
        # with "two", the allocations are made in turn by two factories of equal sizers
        sizers = [
            sizer_of(util, sc["layout"], sc["cells"], sc["nz"], sc["halo"], extra, sc["how"], sc["part"], sc["rank"])
            for _ in range(1 + sc.get("two", False))
        ]
        backend = Backend() if sc.get("backend") else np
        factories = [util.QuantityFactory(sizer, backend) for sizer in sizers]
    except Exception as e:
        rec["error"] = repr(e)[:300]
        return rec
    made = []
    for k, op in enumerate(sc["ops"]):
        sizer, factory = sizers[k % len(sizers)], factories[k % len(sizers)]
        o = {"error": ""}
        names = [d["name"] for d in op["dims"]]
        names = names if op["list"] else tuple(names)
        try:
            kw = {"dtype": given_as(op["dtype"], op["as"])} if op["dtype"] else {}
            o["sizer"] = [
                [int(v) for v in f(names)]
                for f in (sizer.get_origin, sizer.get_extent, sizer.get_shape)
            ]
            q = getattr(factory, op["fn"])(names, op["units"], **kw)
            o.update(
                origin=[int(v) for v in q.origin], extent=[int(v) for v in q.extent],
                shape=[int(v) for v in q.data.shape], dims=list(q.dims), units=q.units,
                dtype=str(q.data.dtype),
            )
            if op["fn"] == "empty" or not q.data.size:
                o["range"] = []
            else:
                d = q.data.real if np.iscomplexobj(q.data) and not q.data.imag.any() else q.data
                o["range"] = drv.encode([d.min(), d.max()])
            if sc.get("backend"):
                o["told"] = [int(v) for v in backend.told or ()]
            o["shared"] = any(np.shares_memory(q.data, p.data) for p in made)
            q.data[...] = 7
            made.append(q)
        except Exception as e:
            o["error"] = repr(e)[:300]
        rec["obs"].append(o)
    return rec


if __name__ == "__main__":
    drv.main(handle)
