"""Driver for histories that use everything a model uses, on the fields of one model (C26)."""
from datetime import timedelta
import os

import cftime
import numpy as np
import zarr

import drv
from halo import dims_of, quantity
from monitor import _STORES, LoggedStore
from simmpi import HarnessError, MPIError, World

UNITS = ["m s-1", "K", "", "kg/m^2"]


def canon(q, names):
    """the compute domain, dimensions in the order of the names"""
    return np.transpose(np.asarray(q.view[:]), [q.dims.index(n) for n in names])


def kind_of(q):
    return [list(q.dims), q.units, str(np.asarray(q.data).dtype)]


def handle(sc):
    L, fields, ops = sc["L"], sc["fields"], sc["ops"]
    n_ranks = 6 * L * L
    world = World(n_ranks, seed=sc["seed"], policy=sc["policy"], delivery=sc["delivery"], sync=sc["sync"], isolate=True)
    store = LoggedStore(sc["id"])
    obs = [{"delta": [], "res": [], "errors": []} for _ in ops]
    start, final = [], []
    top = [1]  # every value that is ever written is different

    def take(n):
        top[0] += n
        return top[0] - n

    def name(f, c):
        return "field_%d%s" % (f, "xy"[c - 1])

    names = [[dims_of(Q) for Q in F["qs"]] for F in fields]
    units = [UNITS[(sc["seed"] + f) % len(UNITS)] for f in range(len(fields))]
    for f, F in enumerate(fields):
        if F["twin"]:
            units[f] = units[F["twin"] - 1]
    stores = [k for k, op in enumerate(ops) if op["op"] == "store"]

    def rank_main(rank, comm):
        util = world.modules[rank].util
        tile = util.TilePartitioner((L, L))
        cubes = [
            util.CubedSphereCommunicator(c, util.CubedSpherePartitioner(tile)) for c in (comm, comm.Dup())
        ]
        orig, cur = {}, {}
        for f, F in enumerate(fields, 1):
            for c, Q in enumerate(F["qs"], 1):
                size = int(np.prod([d["shape"] for d in Q]))
                q = quantity(util, Q, take(size), F["dtype"], F["mem"])
                # the units are given by another constructor call
                orig[f, c] = cur[f, c] = util.Quantity(q.data, q.dims, units[f - 1], q.origin, q.extent)
        gathered, fresh, pending, seen = {}, {}, [], {}
        monitor = None
        if stores:
            monitor = util.ZarrMonitor(store, cubes[0].partitioner, mode="w", mpi_comm=comm)

        def snapshot():
            out = {}
            busy = {f for f, _ in pending}
            for (f, c), q in orig.items():
                if f not in busy:
                    out["A", f, c, ""] = drv.encode(q.data), []
            for (f, c, via), q in gathered.items():
                lead = ["tile"] if via == "cube" else []
                out["G", f, c, via] = drv.encode(canon(q, lead + names[f - 1][c - 1])), kind_of(q)
            for (f, c), q in fresh.items():
                out["N", f, c, ""] = drv.encode(canon(q, names[f - 1][c - 1])), kind_of(q)
            return out

        def deltas(new_keys=()):
            now = snapshot()
            out = []
            for key, (data, kind) in now.items():
                if key in new_keys or seen.get(key) != data:
                    out.append({"s": key[0], "f": key[1], "c": key[2], "v": key[3], "r": rank, "d": data, "m": kind})
                seen[key] = data
            for key in set(seen) - set(now):
                if key[0] != "A":  # those of updates under way are compared when these are over
                    del seen[key]
            return out

        start.extend(deltas())

        def all_of(f):
            return [cur[f, c] for c in range(1, len(fields[f - 1]["qs"]) + 1)]

        def start_update(cube, op):
            qs = all_of(op["field"])
            if op["kind"] == "scalar":
                return cube.start_halo_update(qs[0], op["npts"])
            if op["kind"] == "vector":
                return cube.start_vector_halo_update(qs[0], qs[1], op["npts"])
            return cube.start_synchronize_vector_interfaces(qs[0], qs[1])

        def update(cube, op):
            qs = all_of(op["field"])
            if op["kind"] == "scalar":
                cube.halo_update(qs[0], op["npts"])
            elif op["kind"] == "vector":
                cube.vector_halo_update(qs[0], qs[1], op["npts"])
            else:
                cube.synchronize_vector_interfaces(qs[0], qs[1])

        def root(via):
            return rank % (n_ranks if via == "cube" else L * L) == 0

        def refuse(k, op):
            """a call that is an error, and must do nothing; the root of a scatter has to refuse it alone"""
            f = op["field"]
            q = cur[f, 1]
            what = op["m"] % 4
            if what == 1 and rank != 0:
                return
            try:
                if what == 0 and op["m"] % 8:
                    update(cubes[op["comm"] - 1], dict(op, kind=op["kind"] if op["kind"] != "sync" else "vector", npts=0))
                elif what == 0:
                    start_update(cubes[op["comm"] - 1], dict(op, kind=op["kind"] if op["kind"] != "sync" else "vector", npts=0))
                elif what == 1:
                    cubes[op["comm"] - 1].scatter()
                elif what == 2:
                    q.transpose(["nowhere", *q.dims[1:]])
                else:
                    util.apply_nudging(
                        {name(f, 1): q}, {}, {name(f, 1): timedelta(seconds=1)}, timedelta(seconds=1)
                    )
            except (MPIError, HarnessError):
                raise
            except Exception:
                return
            obs[k]["errors"].append("rank %d" % rank)

        for k, op in enumerate(ops):
            f, c, via, what = op["field"], op["comp"], op["via"], op["op"]
            cube = cubes[op["comm"] - 1]
            comm_of = cube.tile if via == "tile" else cube
            q = cur.get((f, c))
            made = set()
            if what == "write":
                if op["rank"] in (-1, rank):
                    if op["dst"] in ("G", "N"):
                        q = gathered.get((f, c, via)) if op["dst"] == "G" else fresh.get((f, c))
                    if q is None:
                        pass
                    elif op["dst"] in ("G", "N"):
                        q.view[:] = (np.arange(int(np.prod(q.extent))) + take(int(np.prod(q.extent)))).reshape(q.extent)
                    elif op["dst"] == "view":
                        q.view[:] = (np.arange(int(np.prod(q.extent))) + take(int(np.prod(q.extent)))).reshape(q.extent)
                    else:
                        q.data[...] = (np.arange(q.data.size) + take(q.data.size)).reshape(q.data.shape)
            elif what == "update":
                update(cube, op)
            elif what == "start":
                pending.append((f, start_update(cube, op)))
            elif what == "wait":
                j = [p[0] for p in pending].index(f)
                pending.pop(j)[1].wait()
            elif what == "gather":
                if op["dst"] == "given":
                    got = comm_of.gather(q, recv_quantity=gathered[f, c, via]) if root(via) else comm_of.gather(q)
                    if root(via) and got is not gathered[f, c, via]:
                        obs[k]["errors"].append("the given quantity was not returned")
                else:
                    got = comm_of.gather(q)
                if root(via):
                    gathered[f, c, via] = got
                    made.add(("G", f, c, via))
            elif what == "scatter":
                src = gathered.get((f, c, via))
                if op["dst"] == "given":
                    if comm_of.scatter(src, recv_quantity=q) is not q:
                        obs[k]["errors"].append("the given quantity was not returned")
                else:
                    fresh[f, c] = comm_of.scatter(src) if root(via) else comm_of.scatter()
                    made.add(("N", f, c, ""))
            elif what == "gather_state":
                sent = {name(g, e): cur[g, e] for g in op["fields"] for e in range(1, len(fields[g - 1]["qs"]) + 1)}
                items = list(sent)
                world.rng.shuffle(items)
                sent = {n: sent[n] for n in items}
                sent["time"] = cftime.DatetimeJulian(2016, 8, 1, 0, k)
                got = cube.gather_state(sent)
                if rank == 0:
                    if got["time"] != sent["time"] or len(got) != len(sent):
                        obs[k]["errors"].append("wrong state")
                    for g in op["fields"]:
                        for e in range(1, len(fields[g - 1]["qs"]) + 1):
                            gathered[g, e, "cube"] = got[name(g, e)]
                            made.add(("G", g, e, "cube"))
            elif what == "scatter_state":
                keys = [(g, e) for g in op["fields"] for e in range(1, len(fields[g - 1]["qs"]) + 1)]
                into = {name(*x): cur[x] for x in keys} if op["groups"] else None
                kw = {} if into is None else {"recv_state": dict(into)}
                if rank == 0:
                    sent = {name(*x): gathered[x + ("cube",)] for x in keys}
                    sent["time"] = cftime.DatetimeJulian(2016, 8, 1, 0, k)
                    got = cube.scatter_state(sent, **kw)
                else:
                    got = cube.scatter_state(**kw)
                if got["time"] != cftime.DatetimeJulian(2016, 8, 1, 0, k) or len(got) != len(keys) + 1:
                    obs[k]["errors"].append("wrong state")
                for x in keys:
                    if into is None:
                        fresh[x] = got[name(*x)]
                        made.add(("N",) + x + ("",))
                    elif got[name(*x)] is not cur[x]:
                        obs[k]["errors"].append("the given quantity was not returned")
            elif what == "transpose":
                for e in range(1, len(fields[f - 1]["qs"]) + 1):
                    old = cur[f, e]
                    dims = [old.dims[d - 1] for d in op["perm"]]
                    if op["groups"]:
                        groups = (util.X_DIMS, util.Y_DIMS, util.Z_DIMS)
                        dims = [next((g for g in groups if d in g), d) for d in dims]
                    cur[f, e] = old.transpose(dims)
                for key in [x for x in gathered if x[0] == f]:
                    del gathered[key]
            elif what == "nudge":
                keys = range(1, len(fields[f - 1]["qs"]) + 1)
                util.apply_nudging(
                    {name(f, e): cur[f, e] for e in keys}, {name(f, e): cur[op["to"], e] for e in keys},
                    {name(f, e): timedelta(seconds=64) for e in keys}, timedelta(seconds=64 * op["m"]),
                )
            elif what == "store":
                state = {name(*x): q for x, q in orig.items()}
                state["time"] = cftime.DatetimeJulian(2016, 8, 1, 0, k)
                monitor.store(state)
            elif what == "file":
                if rank == op["rank"] % n_ranks:
                    path = os.path.join(os.environ["VERIF_SCRATCH"], "session %s %d.nc" % (sc["id"], k))
                    state = {name(*x): q for x, q in cur.items()}
                    state["time"] = cftime.DatetimeJulian(2016, 8, 1, 0, k)
                    util.write_state(state, path)
                    got = util.read_state(path)
                    os.remove(path)
                    if got.pop("time") != state["time"] or set(got) != set(state) - {"time"}:
                        obs[k]["errors"].append("wrong state")
                    for (g, e) in orig:
                        x = got[name(g, e)]
                        obs[k]["res"].append({"f": g, "c": e, "r": rank, "d": drv.encode(canon(x, names[g - 1][e - 1])), "m": [list(x.dims), x.units, fields[g - 1]["dtype"]]})
            elif what == "convert":
                x = q.data_array
                y = util.Quantity.from_data_array(x)
                for a, m in (
                    (x.transpose(*names[f - 1][c - 1]).values, [list(x.dims), x.attrs["units"], str(x.dtype)]),
                    (canon(y, names[f - 1][c - 1]), kind_of(y)),
                ):
                    obs[k]["res"].append({"f": f, "c": c, "r": rank, "d": drv.encode(a), "m": m})
            elif what == "corners":
                util.fill_scalar_corners(q, op["dir"], tile, rank, op["npts"])
            elif what == "timer":
                if cube.timer.enabled:
                    cube.timer.disable()
                else:
                    cube.timer.enable()
            elif what == "refuse":
                refuse(k, op)
            obs[k]["delta"].extend(deltas(made))
        final.extend(
            {"f": f, "c": c, "r": rank, "m": kind_of(q), "origin": list(q.origin), "extent": list(q.extent), "kept": orig[f, c].dims == tuple(names[f - 1][c - 1])}
            for (f, c), q in cur.items()
        )

    world.run(rank_main)
    errors = [o[1:] for o in world.outcome if o[0] == "error"]
    ok = all(o[0] == "ok" for o in world.outcome)
    rec = {
        "names": names, "units": units, "start": start if ok else [], "obs": obs if ok else [], "final": final if ok else [],
        "error": str(errors[0])[:300] if errors else "", "deadlock": world.deadlock and not errors,
        "misuse": "; ".join(world.violations)[:300], "leftover": world.leftover(), "zarr": {"vars": [], "times": [], "problem": ""},
    }
    if ok and stores:
        read(rec["zarr"], zarr.open_group(store, mode="r"), fields, names, units, stores, name, obs)
    del _STORES[sc["id"]]
    return rec


def read(out, group, fields, names, units, stores, name, obs):
    """what the store holds in the end, by the step in which it was stored"""
    keys = [(f, c) for f, F in enumerate(fields, 1) for c in range(1, len(F["qs"]) + 1)]
    if set(group.array_keys()) != {name(*x) for x in keys} | {"time"}:
        out["problem"] = "wrong variables in the store"
        return
    t = group["time"]
    if t.shape[0] != len(stores):
        out["problem"] = "wrong number of times in the store"
        return
    for k, v in zip(stores, t[...]):
        d = cftime.num2date(v, t.attrs["units"], calendar=t.attrs["calendar"])
        if (d.year, d.month, d.day, d.hour, d.minute, d.second) != (2016, 8, 1, 0, k, 0):
            out["problem"] = "wrong time in the store"
    for f, c in keys:
        a = group[name(f, c)]
        if list(a.attrs["_ARRAY_DIMENSIONS"]) != ["time", "tile"] + names[f - 1][c - 1] or a.attrs["units"] != units[f - 1]:
            out["problem"] = "wrong dimensions or units in the store"
        if str(a.dtype) != fields[f - 1]["dtype"]:
            out["problem"] = "wrong type in the store"
        whole = a[...]
        for j, k in enumerate(stores):
            obs[k]["res"].append({"f": f, "c": c, "r": 0, "d": drv.encode(whole[j])})


if __name__ == "__main__":
    drv.main(handle)
