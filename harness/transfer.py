"""Driver for histories of scatters and gathers (C07, C08)."""
from datetime import timedelta  # noqa: F401

import cftime
import numpy as np

import drv
from halo import dims_of, make_array, sized
from sizer_ import allocate
from simmpi import MPIError, World

NAMES = ["zonal_wind", "air", "time_step", "x", "data", "Time", "times", "_", "air_temperature", "extra2"]
UNITS = [" M s-1 ", "", "s", "\u00b5g/m\u00b3", "degC ", "m", "M", "\tkg m^-2\n", "0", "None"]


def parse_time(text):
    stamp, calendar = text.split("|")
    date, clock = stamp.split()
    y, m, d = map(int, date.split("-"))
    hh, mm, ss = map(int, clock.split(":"))
    return cftime.datetime(y, m, d, hh, mm, ss, calendar=calendar)


def show_time(t):
    if t is None:
        return ""
    if not hasattr(t, "calendar"):
        return repr(t)
    return (
        f"{t.year:04d}-{t.month:02d}-{t.day:02d} {t.hour:02d}:{t.minute:02d}:{t.second:02d}"
        f"|{t.calendar}"
    )


NOTHING = {"ret": "none"}


class Family:
    def __init__(self, k, spec, kind, layout, seed):
        self.spec, self.kind = spec, kind
        self.name, self.units, self.dtype = NAMES[(k + seed) % len(NAMES)], UNITS[(k + seed // 10) % len(UNITS)], spec["dtype"]
        self.names = dims_of(spec["dims"])
        D = spec["dims"]
        n = {"y": layout[0], "x": layout[1]}
        self.parts = layout
        per = {d["axis"]: d["cells"] // n[d["axis"]] for d in D if d["axis"] in n}
        self.cells = [per.get("y", 2), per.get("x", 2)]
        self.local = self.layout(
            [d["axis"] for d in D],
            [d["cells"] // n.get(d["axis"], 1) + d["iface"] for d in D], spec["lpad"],
        )
        gext = [d["cells"] + d["iface"] for d in D]
        if kind == "cube":
            self.glob = self.layout(["t"] + [d["axis"] for d in D], [6] + gext, spec["gpad"][::-1])
        else:
            self.glob = self.layout([d["axis"] for d in D], gext, spec["gpad"])

    @staticmethod
    def layout(axes, extent, pads):
        return [
            {"axis": a, "origin": p[0], "extent": e, "shape": p[0] + e + p[1]}
            for a, e, p in zip(axes, extent, pads)
        ]

    def put(self, q, first, zero=False):
        if zero:
            q.data[...] = 0
            return
        ids = np.arange(first, first + q.data.size).reshape(q.data.shape)
        q.data[...] = drv.fill(ids, q.data.dtype, self.spec["special"])

    def make(self, util, is_global, first):
        Q = self.glob if is_global else self.local
        if self.spec["halo"] >= 0 and not is_global:
            sizer = sized(util, Q, self.names, self.spec["halo"], self.parts, self.cells)
            return allocate(util, sizer, Q, first, self.dtype, self.names, self.units, self.spec["special"])
        shape = tuple(d["shape"] for d in Q)
        size = int(np.prod(shape))
        data = make_array(
            shape, drv.fill(np.arange(first, first + size), self.dtype, self.spec["special"]), self.dtype,
            self.spec["gmem" if is_global else "lmem"],
        )
        names = (["tile"] if is_global and self.kind == "cube" else []) + self.names
        return util.Quantity(
            data, dims=names, units=self.units, origin=tuple(d["origin"] for d in Q),
            extent=tuple(d["extent"] for d in Q),
        )


def handle(sc):
    kind, layout = sc["kind"], sc["layout"]
    per_tile = layout[0] * layout[1]
    n_ranks = per_tile * (1 if kind == "tile" else 6)
    group = per_tile if kind == "split" else n_ranks
    fams = [Family(k, f, kind, layout, sc["seed"]) for k, f in enumerate(sc["fams"])]
    world = World(
        n_ranks, seed=sc["seed"], policy=sc["policy"], sync=sc["sync"], isolate=True
    )
    counter = [1]  # every value that is ever written is different

    def take(n):
        counter[0] += n
        return counter[0] - n

    start = [None] * n_ranks
    final = [None] * n_ranks
    obs = [{"res": [NOTHING] * n_ranks} for _ in sc["ops"]]
    SLOTS = ["G1", "G2", "A1", "A2"]

    def rank_main(rank, comm):
        util = world.modules[rank].util
        tile = util.TilePartitioner(tuple(layout))
        if kind == "tile":
            c = util.TileCommunicator(comm, tile)
        else:
            c = util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile))
            if kind == "split":
                c = c.tile
        root = rank % group == 0
        objs = [dict.fromkeys(SLOTS) for _ in fams]
        fresh = set()  # ids of quantities that the library allocated
        keep = []

        def show(q, f, is_global, into=None):
            if q is None:
                return NOTHING
            if not isinstance(q, util.Quantity):
                return {"ret": type(q).__name__}
            x = {
                "ret": "quantity", "same": q is into, "dims": list(q.dims), "units": q.units,
                "dtype": str(np.asarray(q.data).dtype),
            }
            axes = [d["axis"] for d in (f.glob if is_global else f.local)]
            if id(q) in fresh:
                # only the compute domain of a new quantity is specified
                data = np.asarray(q.view[:])
                x["q"] = [
                    {"axis": a, "origin": 0, "extent": int(e), "shape": int(s)}
                    for a, e, s in zip(axes, q.extent, data.shape)
                ]
                x["d"] = drv.encode(data)
            else:
                x["q"] = [
                    {"axis": a, "origin": int(o), "extent": int(e), "shape": int(s)}
                    for a, o, e, s in zip(axes, q.origin, q.extent, q.data.shape)
                ]
                x["d"] = drv.encode(q.data)
            return x

        def adopt(q):
            if q is not None:
                fresh.add(id(q))
                keep.append(q)
            return q

        for f, o in zip(fams, objs):
            if root:
                q = f.make(util, True, 0)
                f.put(q, take(q.data.size))
                o["G1"] = q
            q = f.make(util, False, 0)
            f.put(q, take(q.data.size))
            o["A1"] = q
        start[rank] = [
            {s: show(o[s], f, s[0] == "G") for s in SLOTS} for f, o in zip(fams, objs)
        ]

        def entries(state, into, is_global):
            out = []
            for k, f in enumerate(fams):
                q = state.get(f.name) if state is not None else None
                if q is None:
                    out.append(NOTHING)
                    continue
                if into.get(f.name) is None and q is not into.get(f.name):
                    adopt(q)
                out.append(show(q, f, is_global, into.get(f.name)))
            return out

        for k, op in enumerate(sc["ops"]):
            name = op["op"]
            f = fams[op["fam"] - 1] if op["fam"] else None
            o = objs[op["fam"] - 1] if op["fam"] else None
            if name == "scatter":
                into = None if op["dst"] == "fresh" else o[op["dst"]]
                src = o[op["src"]] if root else None
                if into is None:
                    q = adopt(c.scatter(src) if root else c.scatter())
                    o["A2"] = q
                else:
                    q = c.scatter(src, recv_quantity=into)
                obs[k]["res"][rank] = show(q, f, False, into)
            elif name == "gather":
                into = None if op["dst"] == "fresh" else o[op["dst"]]
                if into is None:
                    q = c.gather(o[op["src"]])
                    if root:
                        o["G2"] = adopt(q)
                else:
                    q = c.gather(o[op["src"]], recv_quantity=into)
                obs[k]["res"][rank] = show(q, f, True, into)
            elif name == "write":
                q = o[op["dst"]]
                if q is not None:
                    n = q.data.size
                    f.put(q, take(n), op["zero"])
                    obs[k]["res"][rank] = show(q, f, op["dst"][0] == "G")
            elif name == "refuse":
                if root:
                    try:
                        c.scatter()
                        obs[k]["res"][rank] = {"ret": "quantity"}
                    except MPIError:
                        raise
                    except Exception:
                        obs[k]["res"][rank] = {"ret": "error"}
            else:
                scatter = name == "scatter_state"
                names = op["names"] if scatter else op["orders"][rank]
                slot, dst = ("G1", "A1") if scatter else ("A1", "G1")
                sent = None
                if root or not scatter:
                    sent = {}
                    where = len(names) // 2  # time comes in the middle
                    for j, n in enumerate(names):
                        if j == where and op["time"]:
                            sent["time"] = parse_time(op["time"])
                        sent[fams[n - 1].name] = objs[n - 1][slot]
                    if op["time"]:
                        sent.setdefault("time", parse_time(op["time"]))
                before = list(sent.items()) if sent is not None else None
                given, into, extra = None, {}, object()
                if op["given"] and (scatter or root):
                    for n in op["pre"][rank if scatter else 0]:
                        into[fams[n - 1].name] = objs[n - 1][dst]
                    given = dict(into)
                    if op["extra"]:
                        given["extra"] = extra
                    if op["recvTime"]:
                        given["time"] = parse_time(op["recvTime"])
                kw = {"recv_state": given} if given is not None else {}
                out = c.scatter_state(sent, **kw) if scatter else c.gather_state(sent, **kw)
                res = {"ret": "none", "sentSame": True}
                if sent is not None:
                    after = list(sent.items())
                    res["sentSame"] = [x[0] for x in after] == [x[0] for x in before] and all(
                        x[1] is y[1] for x, y in zip(after, before)
                    )
                if (scatter or root) and isinstance(out, dict):
                    keys = sorted(str(x) for x in out)
                    res.update(
                        ret="state", keys=keys, sameState=out is given,
                        time=show_time(out.get("time")), sameExtra=out.get("extra") is extra,
                        entries=entries(out, into, not scatter),
                    )
                    for n in names:
                        if fams[n - 1].name not in into:
                            objs[n - 1]["A2" if scatter else "G2"] = out.get(fams[n - 1].name)
                obs[k]["res"][rank] = res
        final[rank] = [
            {s: show(o[s], f, s[0] == "G").get("d", []) for s in SLOTS}
            for f, o in zip(fams, objs)
        ]

    world.run(rank_main)
    errors = [o[1:] for o in world.outcome if o[0] == "error"]
    ok = all(o[0] == "ok" for o in world.outcome)
    return {
        "fams": [
            {"dims": s["dims"], "name": f.name, "units": f.units, "dtype": f.dtype, "names": f.names}
            for s, f in zip(sc["fams"], fams)
        ],
        "start": start if ok else [], "obs": obs if ok else [], "final": final if ok else [],
        "error": str(errors[0])[:300] if errors else "",
        "deadlock": world.deadlock and not errors,
        "misuse": "; ".join(world.violations)[:300],
        "leftover": world.leftover(),
    }


if __name__ == "__main__":
    drv.main(handle)
