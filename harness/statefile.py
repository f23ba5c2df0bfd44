"""Driver for histories of reading and writing states (C16)."""
import os
import shutil
import tempfile

import cftime
import numpy as np
import xarray as xr

import drv
import remote
import fv3gfs.util as util
from fv3gfs.util import io
from halo import make_array

CALENDARS = [
    cftime.DatetimeJulian, cftime.DatetimeNoLeap, cftime.Datetime360Day, cftime.DatetimeGregorian,
    cftime.DatetimeProlepticGregorian, cftime.DatetimeAllLeap,
]


UNITS = {"#1": "\u00b5m", "#2": "a\nb", "#3": "m" * 300, "#4": "\u00b0C\t"}


def when(t):
    y, m, d, s, cal = t[:5]
    return CALENDARS[cal - 1](y, m, d, s // 3600, s // 60 % 60, s % 60, *t[5:])


def show_time(t):
    if not isinstance(t, cftime.datetime):
        return [repr(t)[:100]]
    names = [c(2000, 1, 1).calendar for c in CALENDARS]
    out = [t.year, t.month, t.day, t.hour * 3600 + t.minute * 60 + t.second]
    out.append(names.index(t.calendar) + 1 if t.calendar in names else 0)
    return out + ([t.microsecond] if t.microsecond else [])


def text(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        return [float(v).hex() for v in a.reshape(-1)]
    if a.dtype.kind in "iub":
        return [str(int(v)) for v in a.reshape(-1)]
    return [repr(v) for v in a.reshape(-1)]


def make(v):
    rng = np.random.RandomState(v["seed"])
    shape = tuple(d["pad"][0] + d["extent"] + d["pad"][1] for d in v["dims"])
    dt = np.dtype(v["dtype"])
    if dt.kind == "f":
        values = (rng.standard_normal(shape) * 10.0 ** rng.randint(-30, 30, size=shape)).astype(dt)
        if v["special"]:
            special = np.array([np.nan, np.inf, -np.inf, -0.0, 9.969209968386869e36, 1e20, -999.0, 1e-310])
            pick = rng.rand(*shape) < 0.3
            with np.errstate(all="ignore"):
                values = np.where(pick, rng.choice(special, size=shape), values).astype(dt)
    elif dt.kind == "b":
        values = rng.rand(*shape) < 0.5
    else:
        top = np.iinfo(np.int32 if dt.itemsize > 4 else dt)
        values = rng.randint(top.min, top.max, size=shape)
    data = make_array(shape, values, dt, v["mem"])
    return util.Quantity(
        data, dims=[d["name"] for d in v["dims"]], units=UNITS.get(v["units"], v["units"]),
        origin=tuple(d["pad"][0] for d in v["dims"]), extent=tuple(d["extent"] for d in v["dims"]),
    )


def impossible(kind, state):
    """adds what no file can hold"""
    if kind == "complex":
        state["impossible"] = util.Quantity(np.ones(2, dtype=complex), ["w"], "m")
    elif kind == "too large":
        state["impossible"] = util.Quantity(np.array([1, 2 ** 40]), ["w"], "m")
    elif kind == "two lengths":
        state["impossible"] = util.Quantity(np.ones(2), ["w"], "m")
        state["impossible 2"] = util.Quantity(np.ones(3), ["w"], "m")


def show(name, q):
    if not isinstance(q, util.Quantity):
        return {"name": str(name), "dims": [type(q).__name__], "units": "", "shape": [], "values": []}
    a = np.asarray(q.view[:])
    return {
        "name": str(name), "dims": list(q.dims), "units": q.units,
        "shape": [int(n) for n in a.shape], "values": text(a),
    }


def other(kind, filename):
    """a file whose time is not one decodable time"""
    ds = xr.Dataset({"a": (("z",), np.arange(3.0), {"units": "m"})})
    since = {"units": "seconds since 2016-08-01", "calendar": "julian"}
    ds["time"] = {
        "two times": (("T",), [0.0, 1.0], since), "one time in a list": (("T",), [0.0], since),
        "number": ((), 5.0), "duration": ((), 5.0, {"units": "seconds"}),
        "text": ((), b"2016-08-01"), "no units of time": ((), 3.0, {"units": "m since 2016-08-01"}),
    }[kind]
    ds.to_netcdf(filename)


def handle(sc):
    folder = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    prefix = {"path": "", "url": "file://", "remote": remote.url("")}[sc["where"]]
    rec = {"obs": []}
    for op in sc["ops"]:
        name = prefix + os.path.join(folder, f"state {op['file']}.nc")
        o = {"error": False, "why": ""}
        if op["op"] == "write":
            state = {v["name"]: make(v) for v in op["vars"]}
            if op["time"]:
                state["time"] = when(op["time"])
            impossible(op["kind"], state)
            o["sent"] = [show(n, q) for n, q in state.items() if n != "time"]
            before = [(n, q, q if n == "time" else (text(q.data), q.dims, q.units, q.origin, q.extent)) for n, q in state.items()]
            try:
                io.write_state(state, name)
            except Exception as e:
                o.update(error=True, why=repr(e)[:300])
            o["same"] = [n for n, _, _ in before] == list(state) and all(
                state[n] is q and was == (q if n == "time" else (text(q.data), q.dims, q.units, q.origin, q.extent))
                for n, q, was in before
            )
            for n, q in state.items():
                if n != "time":
                    q.data[...] = 1
        else:
            if op["op"] == "read other":
                name = os.path.join(folder, "other.nc")
                other(op["kind"], name)
            try:
                got = io.read_state(name)
                o["got"] = [show(n, q) for n, q in got.items() if n != "time"]
                o["time"] = show_time(got["time"]) if "time" in got else []
                for n, q in got.items():
                    if n != "time" and q.data.flags.writeable:
                        q.data[...] = 0
            except Exception as e:
                o.update(error=True, why=repr(e)[:300])
        rec["obs"].append(o)
    shutil.rmtree(folder)
    remote.FILES.clear()
    return rec


if __name__ == "__main__":
    drv.main(handle)
