"""Driver for opening directories of restart files (C17)."""
import os
import shutil
import tempfile

import cftime
import numpy as np
import xarray as xr

import drv
import remote
from simmpi import World

FILES = ["fv_core.res", "fv_srf_wnd.res", "fv_tracer.res", "sfc_data", "phy_data"]
CALENDARS = [cftime.Datetime360Day, cftime.DatetimeJulian, cftime.DatetimeGregorian, cftime.DatetimeNoLeap]
COUPLER = """     {cal}        (Calendar: no_calendar=0, thirty_day_months=1, julian=2, gregorian=3, noleap=4)
  {start}        Model start time:   year, month, day, hour, minute, second
  {now}        Current model time: year, month, day, hour, minute, second
"""


def show_time(t):
    if t is None:
        return ""
    if not isinstance(t, cftime.datetime):
        return repr(t)
    return f"{t.calendar} {t.year}-{t.month}-{t.day} {t.hour}:{t.minute}:{t.second}.{t.microsecond}"


def write_files(folder, sc, label, bases, shift, all_files, coupler, time, start):
    """restart files; `shift` makes the values of different labels different"""
    prefix = label + "." if label else ""
    for tile in range(6):
        for w, name in enumerate(FILES, 1):
            if not all_files and ((w == 4 and not sc["sfc"]) or (w == 5 and not sc["phy"])):
                continue
            data, lengths = {}, {}
            for v, base in zip(sc["vars"], bases):
                if v["where"] != w:
                    continue
                shape = [d["cells"] + d["iface"] for d in v["dims"]]
                n = int(np.prod(shape))
                values = np.arange(n).reshape(shape) + base + tile * n + shift
                # FMS numbers the axes of a kind by their length
                names = []
                for d, s in zip(v["dims"], shape):
                    kind = {"x": "xaxis", "y": "yaxis", "o": "zaxis"}[d["axis"]]
                    known = lengths.setdefault(kind, [])
                    if s not in known:
                        known.append(s)
                    names.append(f"{kind}_{known.index(s) + 1}")
                # a variable can have two vertical axes of one length only once
                assert len(set(names)) == len(names)
                attrs = {"long_name": v["file"]}
                if v["fileUnits"] and v["name"] and (sc["tracers"] or not v["tracer"]):
                    attrs["units"] = v["fileUnits"]
                data[v["file"]] = xr.DataArray(
                    values[None].astype(v["dtype"]), dims=["Time"] + names, attrs=attrs
                )
            ds = xr.Dataset(data)
            for kind, known in lengths.items():
                for k, s in enumerate(known):
                    axis = f"{kind}_{k + 1}"
                    ds = ds.assign_coords({axis: (axis, np.arange(1.0, s + 1))})
            ds = ds.assign_coords(Time=("Time", [1.0]))
            ds.to_netcdf(
                os.path.join(folder, f"{prefix}{name}.tile{tile + 1}.nc"),
                engine="h5netcdf" if sc["netcdf4"] else "scipy",
            )
    if coupler:
        def row(y, m, d, s):
            numbers = (y, m, d, s // 3600, s // 60 % 60, s % 60)
            return "".join(f"  {k:4d}" for k in numbers)

        with open(os.path.join(folder, prefix + "coupler.res"), "w") as f:
            f.write(COUPLER.format(cal=sc["calendar"], start=row(*start), now=row(*time)))


def handle(sc):
    layout = sc["layout"]
    folder = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    bases, top = [], 1
    for v in sc["vars"]:
        bases.append(top)
        top += 6 * int(np.prod([d["cells"] + d["iface"] for d in v["dims"]]))
    write_files(folder, sc, sc["label"], bases, 0, False, sc["coupler"], sc["time"],
                sc.get("start", [2015, 1, 2, 11045]))
    if sc["seed"] % 2:
        # files with another label, which are none of our business
        other = "" if sc["label"] else "20151231.000000"
        write_files(folder, sc, other, bases, 2 * top, True, True, [1850, 2, 3, 77], [1850, 2, 1, 0])
    # the same files on the disc, by URL, or on another file system only
    where = {"path": folder, "url": "file://" + folder, "remote": remote.url(folder)}[sc.get("at", "path")]
    if sc.get("at") == "remote":
        remote.take(folder)
    if sc.get("slash"):
        where += "/"
    n_ranks = 6 * layout[0] * layout[1]
    world = World(n_ranks, seed=sc["seed"], policy=sc["policy"], sync=sc["sync"], isolate=True)
    out = [None] * n_ranks
    recv_time = cftime.DatetimeNoLeap(1, 2, 3, 4)
    n = {"y": layout[0], "x": layout[1]}

    def rank_main(rank, comm):
        util = world.modules[rank].util
        tile = util.TilePartitioner(tuple(layout))
        cube = util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile))
        kw = {}
        if sc["label"] or sc["seed"] % 3:
            kw["label"] = sc["label"]
        if sc["select"]:
            kw["only_names"] = list(sc["only"])
        if sc["tracers"]:
            kw["tracer_properties"] = {
                "specific_humidity": {"dims": ["z", "y", "x"], "restart_name": "sphum", "units": "kg/kg"},
                "turbulent_kinetic_energy": {
                    "dims": ["z_interface", "y_interface", "x"], "restart_name": "sgs_tke", "units": "m**2/s**2",
                },
                "tracer_flux": {"dims": ["y", "x_interface"], "restart_name": "tflx", "units": ""},
            }
        given, pre = None, {}
        if sc["given"]:
            given = {"extra": object()}
            for v in sc["vars"]:
                if v["pre"] and v["name"]:
                    pads = v["lpad"][: len(v["dims"])]
                    extent = [d["cells"] // n.get(d["axis"], 1) + d["iface"] for d in v["dims"]]
                    shape = [p[0] + e + p[1] for p, e in zip(pads, extent)]
                    given[v["name"]] = pre[v["name"]] = util.Quantity(
                        np.full(shape, -7, dtype=v["dtype"]), [d["name"] for d in v["dims"]], v["units"],
                        origin=tuple(p[0] for p in pads), extent=tuple(extent),
                    )
            if sc["recvTime"]:
                given["time"] = recv_time
            kw["to_state"] = given
        state = util.open_restart(where, cube, **kw)
        rec = {"keys": sorted(str(k) for k in state), "time": show_time(state.get("time")), "entries": []}
        for v in sc["vars"]:
            q = state.get(v["name"])
            if not isinstance(q, util.Quantity):
                rec["entries"].append({"dims": ["none"], "units": "", "extent": [], "values": [], "same": False, "outside": True})
                continue
            mask = np.ones(q.data.shape, dtype=bool)
            mask[tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))] = False
            rec["entries"].append({
                "dims": list(q.dims), "units": q.units, "extent": [int(e) for e in q.extent],
                "values": drv.encode(q.view[:]), "same": q is pre.get(v["name"]),
                "outside": bool(np.all(np.asarray(q.data)[mask] == -7)) if v["name"] in pre else True,
            })
        rec["touched"] = []
        known = {v["name"] for v in sc["vars"] if v["name"] and (sc["tracers"] or not v["tracer"])}
        if sc["select"]:
            known &= set(sc["only"])
        for name, q in pre.items():
            if name not in known and not np.all(q.data == -7):
                rec["touched"].append(name)
        if given is not None and given.get("extra") is None:
            rec["touched"].append("extra")
        out[rank] = rec

    world.run(rank_main)
    shutil.rmtree(folder)
    remote.FILES.clear()
    errors = [o[1:] for o in world.outcome if o[0] == "error"]
    y, m, d, s = sc["time"]
    return {
        "error": str(errors[0])[:300] if errors else "", "deadlock": world.deadlock and not errors,
        "misuse": "; ".join(world.violations)[:300],
        "ranks": out if all(o is not None for o in out) else [], "bases": bases,
        "timeText": show_time(CALENDARS[sc["calendar"] - 1](y, m, d, s // 3600, s // 60 % 60, s % 60)),
        "recvTimeText": show_time(recv_time),
    }


if __name__ == "__main__":
    drv.main(handle)
