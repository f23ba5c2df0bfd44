"""Driver for single halo updates and interface synchronisations (C02, C03, C04)."""
import numpy as np

import drv
from simmpi import HarnessError, MPIError, World

NAMES = {("x", 0): "x", ("x", 1): "x_interface", ("y", 0): "y", ("y", 1): "y_interface"}
OTHER = {
    0: ["z", "z_soil", "tracer", "member", "band"],
    1: ["z_interface", "other", "another", "yet_another", "last"],
}


def dims_of(Q):
    out = []
    n = {0: 0, 1: 0}
    for d in Q:
        if d["axis"] == "o":
            out.append(OTHER[d["iface"]][n[d["iface"]]])
            n[d["iface"]] += 1
        else:
            out.append(NAMES[d["axis"], d["iface"]])
    return out


def make_array(shape, values, dtype, mem):
    a = np.asarray(values).reshape(shape)
    a = a.astype(dtype) if a.dtype != dtype else a
    if a.ndim == 0:
        return a.copy()
    if mem == "F":
        return np.asfortranarray(a)
    if mem == "reversed":
        back = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[back])[back]
    if mem == "inner":  # part of a larger array
        view = np.zeros(tuple(s + 2 for s in shape), dtype=dtype)[(slice(1, -1),) * a.ndim]
        view[...] = a
        return view
    if mem == "strided":
        big = np.zeros(tuple(2 * s + 1 for s in shape), dtype=dtype)
        view = big[tuple(slice(1, 2 * s + 1, 2) for s in shape)]
        view[...] = a
        return view
    return np.ascontiguousarray(a)


def sized(util, dims, names, halo, layout, cells):
    """the sizer of the library for arrays with these dimensions"""
    from sizer_ import sizer_of

    extra, nz = {}, 1
    for n, d in zip(names, dims):
        if d["axis"] == "o":
            if n == "z":
                nz = d["extent"]
            elif n == "z_interface":
                nz = d["extent"] - 1
            else:
                extra[n] = d["extent"]
    return sizer_of(util, layout, cells, nz, halo, extra)


def quantity(util, Q, first, dtype, mem, halo=-1, layout=None, cells=None, special=False):
    if halo >= 0:
        from sizer_ import allocate

        return allocate(util, sized(util, Q, dims_of(Q), halo, layout, cells), Q, first, dtype, dims_of(Q), special=special)
    shape = tuple(d["shape"] for d in Q)
    size = int(np.prod(shape))
    data = make_array(shape, drv.fill(np.arange(first, first + size), dtype, special), dtype, mem)
    return util.Quantity(
        data,
        dims=dims_of(Q),
        units="m",
        origin=tuple(d["origin"] for d in Q),
        extent=tuple(d["extent"] for d in Q),
    )


def update(cube, kind, qs, step):
    args = (qs[0], step["npts"]) if kind == "scalar" else (qs[0], qs[1], step["npts"])
    if kind == "sync":
        args = args[:2]
    name = {
        "scalar": "halo_update", "vector": "vector_halo_update", "sync": "synchronize_vector_interfaces",
    }[kind]
    if step["asyn"]:
        getattr(cube, "start_" + name)(*args).wait()
    else:
        getattr(cube, name)(*args)


def handle(sc):
    """the updates of a scenario, one after the other, by the same communicators"""
    L, kind = sc["L"], sc["kind"]
    n_ranks = 6 * L * L
    steps = [sc] + sc["more"]
    world = World(
        n_ranks, seed=sc["seed"], policy=sc["policy"], delivery=sc["delivery"], sync=sc["sync"],
        isolate=True,
    )
    held = [{} for _ in steps]  # per step and rank: quantities, error
    spoilt = [""] * len(steps)

    def rank_main(rank, comm):
        util = world.modules[rank].util
        tile = util.TilePartitioner((L, L))
        cube = util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile))
        made = []
        for k, step in enumerate(steps):
            sizes = [int(np.prod([d["shape"] for d in Q])) for Q in step["qs"]]
            base = [1, 1 + n_ranks * sizes[0]]
            qs = [
                quantity(util, Q, base[q] + rank * sizes[q], step["dtype"], step["order_mem"],
                    sc["halo"], (L, L), (step["n"], step["n"]), sc["special"])
                for q, Q in enumerate(step["qs"])
            ]
            # the quantities live on, or only their arrays do
            made.append([q.data for q in qs] + ([] if sc.get("drop") else [qs]))
            error = None
            try:
                update(cube, kind, qs, step)
            except (MPIError, HarnessError):
                raise
            except Exception as e:
                error = repr(e)[:200]
            # an update is over on a rank when it returns: later ones leave its arrays alone
            held[k][rank] = [drv.encode(q.data) for q in qs], error
            n = len(qs)
            del qs
        for k, arrays in enumerate(made):
            if [drv.encode(a) for a in arrays[:n]] != held[k][rank][0]:
                spoilt[k] = "rank %d" % rank

    world.run(rank_main)
    crash = [str(o[1:])[:300] for o in world.outcome if o[0] == "error"]
    runs = []
    for k, step in enumerate(steps):
        over = len(held[k]) == n_ranks
        errors = [held[k][r][1] for r in sorted(held[k]) if held[k][r][1]]
        runs.append({
            "out": [[held[k][r][0][q] for r in range(n_ranks)] for q in range(len(step["qs"]))] if over else [],
            "fails": bool(errors) or bool(crash and not over),
            "mixed": bool(errors) and len(errors) < n_ranks,
            "error": str((errors or crash or [""])[0]),
            "deadlock": not over and not errors and not crash,
            "misuse": "; ".join(world.violations)[:300] if not over or step is steps[-1] else "",
            "leftover": world.leftover() if step is steps[-1] else 0,
            "spoilt": spoilt[k],
            "over": over,
            "hang": False,
        })
        if not over:
            break
    return {"runs": runs}


if __name__ == "__main__":
    drv.main(handle)
