"""Driver for slices and extents (C06)."""
import random

import numpy as np

import drv
import fv3gfs.util as util
from halo import dims_of


def metadata(dims, extent):
    return util.Quantity(np.broadcast_to(np.zeros(()), tuple(extent)), dims, "m").metadata


def ask(part, kind, layout, dims, rng, few):
    cube = kind == "cube"
    names = dims_of(dims)
    extent = [d["cells"] + d["iface"] for d in dims]
    gdims, gext = (["tile"] + names, [6] + extent) if cube else (names, extent)
    rec = {"slices": [], "error": "", "total": 0, "rankExtent": [], "tileExtent": []}
    try:
        n = part.total_ranks
        rec["total"] = n
        rec["rankExtent"] = [int(v) for v in part.subtile_extent(metadata(gdims, gext))]
        rec["tileExtent"] = [
            int(v) for v in part.global_extent(metadata(names, rec["rankExtent"]))
        ]
        ranks = list(range(n))
        if n > few:
            ly, lx = layout
            ranks = sorted({0, lx - 1, n - 1, n - lx}) + rng.sample(ranks, few // 2)
            rng.shuffle(ranks)
        for r in ranks:
            for overlap in (False, True):
                sl = part.subtile_slice(r, gdims, gext, overlap=overlap)
                t = -1
                if cube:
                    t, sl = sl[0], sl[1:]
                    t = t.start if isinstance(t, slice) else int(t)
                out = []
                for s, e in zip(sl, extent):
                    a, b, step = s.indices(e)
                    # a slice that leaves the tile is not one of its parts
                    if step != 1 or (s.stop is not None and not 0 <= s.stop <= e):
                        b = -1
                    out.append([int(a), int(b)])
                rec["slices"].append({"rank": r, "overlap": overlap, "tile": t, "slices": out})
    except Exception as e:
        rec["error"] = repr(e)[:300]
    return rec


def handle(sc):
    """all questions twice, to one partitioner per layout"""
    parts = {}
    asked = [{k: sc[k] for k in ("kind", "layout", "dims")}] + sc.get("more", [])
    rng = random.Random(str(sc["id"]))
    runs = []
    for again in (False, True)[: 1 + (len(asked) > 1)]:
        for q in asked:
            key = tuple(q["layout"])
            if key not in parts:
                tile = util.TilePartitioner(key)
                parts[key] = {"tile": tile, "cube": util.CubedSpherePartitioner(tile)}
            part = parts[key][q["kind"]]
            runs.append({**q, **ask(part, q["kind"], key, q["dims"], rng, 20 if again else 60)})
    return {"runs": runs}


if __name__ == "__main__":
    drv.main(handle)
