"""Driver for histories of quantities, their views, transposes and conversions (C09, C10)."""
import random

import numpy as np

import drv
import fv3gfs.util as util
from halo import make_array


def index_of(ix):
    if ix["int"]:
        return ix["at"]
    return slice(*(ix[k][0] if ix[k] else None for k in "abs"))


def meta(q):
    return {
        "names": list(q.dims), "shape": [int(n) for n in q.data.shape],
        "origin": [int(n) for n in q.origin], "extent": [int(n) for n in q.extent],
        "units": q.units, "dtype": str(q.data.dtype),
    }


def handle(sc):
    rng = random.Random(str(sc["id"]))
    special = rng.random() < 0.3
    objs, bases, handles, obs = [], [], [], []
    counter = [1]

    def fresh(shape, dtype):
        n = int(np.prod(shape))
        if dtype == bool:
            return np.array([rng.random() < 0.5 for _ in range(n)]).reshape(shape)
        counter[0] += n
        return drv.fill(np.arange(counter[0] - n, counter[0]).reshape(shape), dtype, special)

    def indices(q, idx, form):
        t = tuple(index_of(ix) for ix in idx)
        if form == 1:
            t = tuple(np.int64(v) if isinstance(v, int) else v for v in t)
        if not t and q.data.ndim == 0 and form == 2:
            return slice(None)
        if not t and form != 3:
            return slice(None) if q.data.ndim else ()
        if len(t) == 1 and form == 2:
            return t[0]
        return t

    def view(q, name):
        return q.view if name == "view" else getattr(q.view, name)

    for op in sc["ops"]:
        o = {"error": False}
        name = op["op"]
        q = objs[op["obj"] - 1] if 1 <= op.get("obj", 0) <= len(objs) else None
        try:
            if name == "new":
                dtype = np.dtype(op["dtype"])
                data = make_array(op["shape"], fresh(op["shape"], dtype), dtype, op["mem"])
                kind = {"list": list, "tuple": tuple, "array": np.array}[op["kind"]]
                kw = {}
                if not op["noOrigin"]:
                    kw["origin"] = kind(op["origin"])
                if not op["noExtent"]:
                    kw["extent"] = kind(op["extent"])
                q = util.Quantity(data, op["names"], op["units"], **kw)
                objs.append(q)
                bases.append(data)
                o["meta"] = meta(q)
                o["initial"] = drv.encode(data)
            elif name in ("read", "sel"):
                if name == "read":
                    out = view(q, op["view"])[indices(q, op["idx"], op["form"])]
                else:
                    kw = {e["name"]: index_of(e["ix"]) for e in op["sel"]}
                    out = (q if op["view"] == "view" else view(q, op["view"])).sel(**kw)
                handles.append(out)
                o["shape"] = [int(n) for n in np.shape(out)]
                o["vals"] = drv.encode(out)
            elif name == "write":
                v, ix = view(q, op["view"]), indices(q, op["idx"], op["form"])
                shape = np.shape(v[ix])
                o["shape"] = [int(n) for n in shape]
                val = fresh((), q.data.dtype) if op["scalar"] else fresh(shape, q.data.dtype)
                o["vals"] = drv.encode(np.broadcast_to(val, shape))
                v[ix] = val[()] if op["scalar"] else val
            elif name == "show" and op["how"] == "values":
                out = q.values
                o["shape"], o["vals"], o["frozen"] = [int(n) for n in np.shape(out)], drv.encode(out), False
                try:
                    out[...] = 0
                except ValueError:
                    o["frozen"] = True
            elif name == "show" and op["how"] == "attrs":
                attrs = q.attrs
                o["units"] = attrs["units"]
                attrs["units"] = "changed"
            elif name == "show":
                repr(q)
            elif name == "poke":
                h = handles[op["handle"] - 1]
                if isinstance(h, np.ndarray):
                    val = fresh(h.shape, h.dtype)
                    o["vals"] = drv.encode(val)
                    h[...] = val
                else:
                    o["error"] = True
            elif name == "toomany":
                n = q.data.ndim
                ix = (0,) * (n + 1) if op["ints"] == 1 else (slice(None),) * (n + op["ints"] - 1)
                if n == 0 and op["ints"] == 1:
                    ix = 0
                elif n == 0 and op["ints"] == 3:
                    ix = slice(0, 1)
                try:
                    if op["write"]:
                        view(q, op["view"])[ix] = 0
                    else:
                        view(q, op["view"])[ix]
                except Exception:
                    o["error"] = True
            elif name == "transpose":
                t = [
                    g[0] if plain else (tuple(g) if op["tuple"] else list(g))
                    for g, plain in zip(op["targets"], op["plain"])
                ]
                r = q.transpose(tuple(t) if op["tuple"] else t)
                objs.append(r)
                o["meta"] = meta(r)
            elif name == "convert":
                a = q.data_array
                o["array"] = {
                    "names": list(a.dims), "units": a.attrs.get("units", "<none>"),
                    "dtype": str(a.dtype), "shape": [int(n) for n in a.shape],
                    "vals": drv.encode(a.values),
                }
                kw = {"origin": tuple(op["origin"])} if op["withOrigin"] else {}
                if op["withExtent"]:
                    kw["extent"] = tuple(op["extent"])
                r = util.Quantity.from_data_array(a, **kw)
                o["meta"] = meta(r)
                o["vals"] = drv.encode(r.data)
        except Exception as e:
            o["error"] = True
            o["why"] = repr(e)[:200]
            if name in ("read", "sel"):
                handles.append(None)
        o["data"] = [drv.encode(x.data) for x in objs]
        o["metas"] = [meta(x) for x in objs]
        obs.append(o)
    return {"obs": obs}


if __name__ == "__main__":
    drv.main(handle)
