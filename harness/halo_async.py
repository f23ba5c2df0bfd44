"""Driver for histories of overlapping halo updates (C05)."""
import numpy as np

import drv
from halo import quantity
from simmpi import World


CLOCKS = ("pack", "unpack", "Isend", "Recv")


def mixed(sc, world, util, cube, rank, fields, arrays, start, write, events):
    """updates started and waited for in alternation, with other calls between them"""
    ops, ups, same = sc["ops"], sc["ups"], sc["same"]
    due = [o["u"] for o in ops if o["op"] == "due"]
    pending, L = {}, sc["L"]
    # another communicator of the same ranks, with a timer of its own; its updates are whole
    # between two calls, so that its messages never wait for those of the first
    beside = known = None
    if sc["timers"] and sc["delivery"] == "eager":
        beside = util.CubedSphereCommunicator(
            cube.comm.Dup(), util.CubedSpherePartitioner(util.TilePartitioner((L, L)))
        )
        if (sc["seed"] + rank) % 3 == 0:
            beside.timer.disable()
        known = dict(beside.timer.hits)

    def note(ev, **kw):
        if sc["timers"]:
            hits = cube.timer.hits
            kw["hits"] = [int(hits.get(n, 0)) for n in CLOCKS] + [len(set(hits) - set(CLOCKS))]
            times = cube.timer.times
            kw["kept"] = beside is None or dict(beside.timer.hits) == known
            kw["timed"] = set(times) == set(hits) and all(t >= 0 for t in times.values())
        events.append({"ev": ev, "rank": rank, **kw})

    waited = set()

    def wait(u):
        waited.add(u)
        pending.pop(u).wait()
        note("wait", phase=1, upd=u, arrays=arrays())
        if sc["writes"][rank][u - 1]:
            write(ups[u - 1]["field"] - 1)

    if sc["timers"]:
        note("clock", what="begin", error="")
    for k, op in enumerate(ops):
        if beside is not None and (sc["seed"] + k) % 4 == 0:
            q = util.Quantity(
                np.full((3, 3), rank, dtype=float), dims=["y", "x"], units="", origin=(1, 1), extent=(1, 1)
            )
            beside.halo_update(q, 1)
            known = dict(beside.timer.hits)
            note("beside", moved=bool(known) == ((sc["seed"] + rank) % 3 != 0))
        if sc["clocks"][rank][k]:
            what, error = ("disable", "enable")[sc["clocks"][rank][k] - 1], ""
            try:
                getattr(cube.timer, what)()
            except Exception as e:
                error = repr(e)[:100]
            note("clock", what=what, error=error)
        e = sc["skip"][rank][k]
        if e > 2 and pending:
            if not same:
                wait(list(pending)[e % len(pending)])
            else:
                u = next(u for u in due if u not in waited)
                if u in pending:
                    wait(u)
        f = op["field"] - 1
        q = fields[f][0] if f >= 0 else None
        if op["op"] == "start":
            events.append({"ev": "start", "rank": rank, "phase": 1, "upd": op["u"]})
            pending[op["u"]] = start(fields[f], ups[op["u"] - 1])
            note("started")
        elif op["op"] == "due":
            if op["u"] in pending:
                wait(op["u"])
        elif op["op"] == "refuse":
            error = ""
            try:
                points = 0 if k % 3 else 99  # more than any array has
                if k % 2 or len(fields[f]) == 1:
                    cube.start_halo_update(q, points)
                else:
                    cube.start_vector_halo_update(fields[f][0], fields[f][1], points)
            except Exception as e:
                error = repr(e)[:100]
            note("refused", error=error)
        elif op["op"] == "gather":
            events.append({"ev": "part", "rank": rank, "op": k + 1, "field": f + 1})
            got = cube.gather(q)
            if rank == 0:
                events.append(
                    {"ev": "gathered", "rank": rank, "op": k + 1, "field": f + 1,
                     "shape": list(got.extent), "whole": drv.encode(got.view[:])}
                )
        else:
            whole = None
            if rank == 0:
                Q = sc["fields"][f]["qs"][0]
                ext = [6] + [
                    d["extent"] if d["axis"] == "o" else sc["n"] * L + d["iface"] for d in Q
                ]
                n = int(np.prod(ext))
                data = (np.arange(n) + 1000000 + 10000 * k).reshape(ext).astype(q.data.dtype)
                whole = util.Quantity(data, dims=["tile", *q.dims], units=q.units)
                events.append({"ev": "whole", "rank": rank, "op": k + 1, "whole": drv.encode(data)})
            cube.scatter(whole, recv_quantity=q)
            events.append(
                {"ev": "scattered", "rank": rank, "op": k + 1, "field": f + 1, "arrays": arrays()[f]}
            )
    if sc["timers"]:
        note("clock", what="disable", error=still_running(cube.timer))


def still_running(timer):
    try:
        timer.disable()
        return ""
    except Exception as e:
        return repr(e)[:100]


def handle(sc):
    L = sc["L"]
    n_ranks = 6 * L * L
    world = World(
        n_ranks, seed=sc["seed"], policy=sc["policy"], delivery=sc["delivery"], sync=False,
        isolate=True,
    )
    bases, at = [], 1
    for f in sc["fields"]:
        row = []
        for Q in f["qs"]:
            row.append(at)
            at += n_ranks * int(np.prod([d["shape"] for d in Q]))
        bases.append(row)
    total = at
    events = []

    def rank_main(rank, comm):
        util = world.modules[rank].util
        cube = util.CubedSphereCommunicator(
            comm, util.CubedSpherePartitioner(util.TilePartitioner((L, L)))
        )
        fields, writes = [], [0] * len(sc["fields"])
        for f, row in zip(sc["fields"], bases):
            qs = []
            for Q, b in zip(f["qs"], row):
                size = int(np.prod([d["shape"] for d in Q]))
                qs.append(quantity(util, Q, b + rank * size, f.get("dtype", sc["dtype"]), f["mem"]))
            fields.append(qs)

        def arrays(only=None):
            # in brief histories a wait records the arrays it concerns only
            return [
                [drv.encode(q.data) for q in qs] if only in (None, f) else []
                for f, qs in enumerate(fields)
            ]

        def start(qs, up):
            if up["kind"] == "scalar":
                return cube.start_halo_update(qs[0], up["npts"])
            if up["kind"] == "vector":
                return cube.start_vector_halo_update(qs[0], qs[1], up["npts"])
            return cube.start_synchronize_vector_interfaces(qs[0], qs[1])

        def write(f):
            writes[f] += 1
            for q, b in zip(fields[f], bases[f]):
                v = np.arange(q.data.size) + b + rank * q.data.size + writes[f] * total
                q.data[...] = v.reshape(q.data.shape).astype(q.data.dtype)
            events.append(
                {
                    "ev": "write", "rank": rank, "field": f + 1,
                    "arrays": [drv.encode(q.data) for q in fields[f]],
                }
            )

        if "ops" in sc:
            mixed(sc, world, util, cube, rank, fields, arrays, start, write, events)
        for ph, phase in enumerate(sc["phases"] if "ops" not in sc else []):
            reqs = []
            for u, up in enumerate(phase["starts"]):
                events.append({"ev": "start", "rank": rank, "phase": ph + 1, "upd": u + 1})
                reqs.append(start(fields[up["field"] - 1], up))
            for u in phase["waits"][rank]:
                reqs[u - 1].wait()
                f = phase["starts"][u - 1]["field"] - 1
                events.append(
                    {
                        "ev": "wait", "rank": rank, "phase": ph + 1, "upd": u,
                        "arrays": arrays(f if sc.get("brief") else None),
                    }
                )
                if phase["writes"][rank][u - 1]:
                    write(f)
            reqs = None
        events.append({"ev": "final", "rank": rank, "arrays": arrays()})

    world.run(rank_main)
    errors = [o[1:] for o in world.outcome if o[0] == "error"]
    return {
        **({"phases": [{"starts": sc["ups"]}]} if "ops" in sc else {}),
        "events": events,
        "error": str(errors[0])[:200] if errors else "",
        "deadlock": world.deadlock and not errors,
        "misuse": "; ".join(world.violations)[:300],
        "leftover": world.leftover(),
    }


if __name__ == "__main__":
    drv.main(handle)
