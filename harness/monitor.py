"""Driver for histories of a Zarr monitor (C14, C15)."""
import os
import shutil
import tempfile
from collections.abc import MutableMapping

import cftime
import numpy as np
import zarr

import drv
from halo import dims_of, make_array
from simmpi import World

# names on both sides of "time" in the order in which a monitor stores variables
NAMES = ["zonal_wind", "air", "q_soil", "x", "Time", "time_step", "tile", "_a"]
UNITS = ["m s-1", "", "kg/m^2", " K", "Pa ", "\u00b5m", "None", "1"]
CLASSES = {
    "julian": cftime.DatetimeJulian, "noleap": cftime.DatetimeNoLeap,
    "360_day": cftime.Datetime360Day, "standard": cftime.DatetimeGregorian,
    "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "all_leap": cftime.DatetimeAllLeap,
}
_STORES = {}


def _find(handle):
    return _STORES[handle]


class LoggedStore(MutableMapping):
    """a store that all ranks share; every access is a scheduling point"""

    def __init__(self, handle):
        self.handle, self.data, self.world, self.writes = handle, {}, None, {}
        _STORES[handle] = self

    def __reduce__(self):
        return _find, (self.handle,)

    def _here(self):
        if self.world is not None:
            self.world.here()

    def __getitem__(self, key):
        self._here()
        value = self.data[key]
        self._here()
        return value

    def __setitem__(self, key, value):
        self._here()
        name = key.rsplit("/", 1)[-1]
        if not name.startswith(".") and self.world is not None:
            self.writes.setdefault(key, set()).add(self.world.current)
        self.data[key] = bytes(value)

    def __delitem__(self, key):
        self._here()
        del self.data[key]

    def __contains__(self, key):
        return key in self.data

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)


def when(row, calendar):
    y, m, d, s = row[:4]
    return CLASSES[calendar](y, m, d, s // 3600, s // 60 % 60, s % 60, *row[4:])


class Family:
    def __init__(self, k, spec, layout, seed):
        self.spec, self.name, self.units, self.dtype = spec, NAMES[(k + seed) % len(NAMES)], UNITS[(k + seed // 8) % len(UNITS)], spec["dtype"]
        D = spec["dims"]
        self.names = dims_of(D)
        n = {"y": layout[0], "x": layout[1]}
        self.extent = tuple(d["cells"] // n.get(d["axis"], 1) + d["iface"] for d in D)
        pads = spec["pad"][: len(D)]
        self.origin = tuple(p[0] for p in pads)
        self.shape = tuple(p[0] + e + p[1] for p, e in zip(pads, self.extent))

        self.kept = {}

    def quantity(self, util, rank, values, names=None, units=None):
        data, q = self.kept.get(rank, (None, None))
        plain = names is None and units is None
        if data is None or self.spec["same"] not in (1, 2):
            data, q = make_array(self.shape, values, self.dtype, self.spec["mem"]), None
        else:
            data[...] = values.reshape(self.shape)
            if self.spec["same"] == 2 or not plain:
                q = None
        if q is None:
            q = util.Quantity(
                data, dims=names or self.names, units=self.units if units is None else units,
                origin=self.origin, extent=self.extent,
            )
            data = q.data
        self.kept[rank] = data, q
        return q


def others(sc, fams, layout):
    """what a second monitor stores under the names of the first one's variables"""
    out = []
    for j in range(len(fams)):
        spec = dict(fams[j - 1].spec)
        spec["dims"] = spec["dims"][::-1]
        spec["pad"] = spec["pad"][: len(spec["dims"])][::-1]
        f = Family(j, spec, layout, sc["seed"])
        f.name, f.units = fams[j].name, "of the second"
        out.append(f)
    return out


def permuted(f):
    """the names of two dimensions of one length exchanged, where there are such"""
    n = len(f.names)
    for a in range(n):
        for b in range(a + 1, n):
            if f.extent[a] == f.extent[b]:
                names = list(f.names)
                names[a], names[b] = names[b], names[a]
                return names
    return f.names[::-1] if n > 1 else ["land"]


def handle(sc):
    layout, alone = sc["layout"], sc["alone"]
    n_ranks = 1 if alone else 6 * layout[0] * layout[1]
    fams = [Family(k, f, layout, sc["seed"]) for k, f in enumerate(sc["fams"])]
    world = World(n_ranks, seed=sc["seed"], policy=sc["policy"], sync=sc["sync"], isolate=True)
    store = LoggedStore(sc["id"])
    path = None
    if sc["backing"] == "dir":
        path = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        # does not exist yet
        backing = os.path.join(path, "store.zarr")
    else:
        backing = store
    if sc.get("old"):
        # a store of an earlier run, which opening it with mode "w" replaces
        group = zarr.open_group(backing, mode="w")
        group.create_dataset("old", data=np.arange(3))
        group.create_dataset(NAMES[0], data=np.arange(4), chunks=(1,))
        group.create_dataset("time", data=np.arange(7.0), chunks=(7,))
    if not path:
        store.world = world
    elsewhere, shadows = LoggedStore(sc["id"] + " second"), others(sc, fams, layout)
    elsewhere.world = world
    rows = [tuple(r) for r in sc["rows"]]
    vals = [[[[] for _ in range(n_ranks)] for _ in fams] for _ in rows]
    refused = [True] * n_ranks
    top = [1]

    def take(n):
        top[0] += n
        return top[0] - n

    def rank_main(rank, comm):
        util = world.modules[rank].util
        part = util.CubedSpherePartitioner(util.TilePartitioner(tuple(layout)))
        kw = {} if alone else {"mpi_comm": comm}
        monitor = util.ZarrMonitor(backing, part, mode=sc["mode"], **kw)
        state = {}
        second = sc.get("second", 0) % 3
        if second:
            again = part if sc["seed"] % 2 else util.CubedSpherePartitioner(
                util.TilePartitioner(tuple(layout))
            )
            beside = util.ZarrMonitor(elsewhere, again, mode="w", **kw)

        def store_beside(k):
            y, m, d, *rest = rows[k]
            values = {"time": when((y + 1, m, d, *rest), sc["calendar"] if sc["seed"] % 3 else "360_day")}
            for f in shadows:
                values[f.name] = f.quantity(util, rank, np.zeros(int(np.prod(f.shape))))
            beside.store(values)

        for k, row in enumerate(rows):
            if second == 1:
                store_beside(k)
            last = k == len(rows) - 1 and sc["change"] != "none"
            change = sc["change"] if last and k > 0 else "none"
            calendar = sc["other"] if change == "calendar" else sc["calendar"]
            items = [("time", when(row, calendar))]
            for j, f in enumerate(fams):
                name, names, units = f.name, None, None
                if j == sc["target"] - 1:
                    if change == "missing":
                        continue
                    if change == "renamed":
                        name = name + "_2"
                    if change == "units":
                        units = "K"
                    if change == "units case":
                        units = f.units.swapcase() if f.units.swapcase() != f.units else "K"
                    if change == "cleared units":
                        units = "" if f.units else "none"
                    if change == "dims":
                        names = [n + "_2" if n[0] == "z" else n for n in f.names]
                        if names == f.names:
                            # another axis of the same length
                            names = [n + "_interface" if len(n) == 1 else n[0] for n in f.names]
                    if change == "swapped":
                        names = ["land", *f.names[1:]]
                    if change == "permuted":
                        names = permuted(f)
                size = int(np.prod(f.shape))
                first = take(size)
                values = drv.fill(np.arange(first, first + size), f.dtype, f.spec["special"])
                if f.spec["zero"] and first % 3:
                    values[...] = 0
                q = f.quantity(util, rank, values, names, units)
                vals[k][j][rank] = drv.encode(q.view[:])
                items.append((name, q))
            if change == "extra":
                items.append(("extra", util.Quantity(np.zeros(2), ["z"], "m")))
            if change == "no time":
                items = items[1:]
            # every rank lists its variables in an order of its own
            world.rng.shuffle(items)
            state = state if sc.get("one") else {}
            state.clear()
            state.update(items)
            if not last:
                monitor.store(state)
                if second == 2:
                    store_beside(k)
            elif k == 0:
                refused[rank] = True  # nothing to be inconsistent with
            else:
                try:
                    monitor.store(state)
                    refused[rank] = False
                except Exception:
                    refused[rank] = True

    world.run(rank_main)
    store.world = None
    errors = [o[1:] for o in world.outcome if o[0] == "error"]
    rec = {
        "fams": [
            {"dims": f.spec["dims"], "name": f.name, "units": f.units, "dtype": f.dtype, "names": f.names}
            for f in fams
        ],
        "error": str(errors[0])[:300] if errors else "", "deadlock": world.deadlock and not errors,
        "misuse": "; ".join(world.violations)[:300], "refused": refused, "vals": vals,
        "names": [], "attrs": [], "data": [], "times": [], "timeAttrs": "", "calendarRead": "",
        "length": 0, "chunks": [],
    }
    wrote_any = len(rows) > (sc["change"] != "none")
    if not errors and not rec["deadlock"] and not rec["misuse"]:
        if wrote_any:
            read(rec, zarr.open_group(backing, mode="r"), fams, store)
        else:
            rec.update(names=[f.name for f in fams], attrs=[
                {"dims": ["time", "tile"] + f.names, "units": f.units, "dtype": f.dtype,
                 "shape": [0, 6] + [d["cells"] + d["iface"] for d in f.spec["dims"]]} for f in fams
            ], data=[[] for f in fams], calendarRead=sc["calendar"])
    if path:
        shutil.rmtree(path)
    del _STORES[sc["id"]], _STORES[sc["id"] + " second"]
    return rec


def read(rec, group, fams, store):
    names = [f.name for f in fams]
    found = sorted(set(group.array_keys()) - {"time"})
    rec["names"] = names if found == sorted(names) else found
    if found != sorted(names):
        return
    for f in fams:
        a = group[f.name]
        rec["attrs"].append({
            "dims": list(a.attrs.get("_ARRAY_DIMENSIONS", [])), "units": a.attrs.get("units", "no units"),
            "dtype": str(a.dtype), "shape": [int(n) for n in a.shape],
        })
        # what was never written shows as a value that nobody stores
        out = np.full(a.shape, 254 if a.dtype == "uint8" else -7, a.dtype)
        if out.size:
            a.get_basic_selection(Ellipsis, out=out)
        rec["data"].append(drv.encode(out))
    t = group["time"]
    rec["timeAttrs"] = str(dict(t.attrs))
    rec["calendarRead"] = t.attrs.get("calendar", "")
    # two names of one calendar
    rec["calendarRead"] = {"gregorian": "standard"}.get(rec["calendarRead"], rec["calendarRead"])
    rec["length"] = int(t.shape[0])
    try:
        for value in t[...]:
            d = cftime.num2date(value, t.attrs["units"], calendar=t.attrs["calendar"])
            s = d.hour * 3600 + d.minute * 60 + d.second
            rec["times"].append([d.year, d.month, d.day, s] + ([d.microsecond] if d.microsecond else []))
    except Exception as e:
        rec["timeAttrs"] += repr(e)[:200]
        rec["times"].append([])
    for key, ranks in sorted(store.writes.items()):
        if len(ranks) > 1:
            name = key.split("/")[0]
            rec["chunks"].append({
                "key": key, "ranks": sorted(ranks), "fam": names.index(name) + 1 if name in names else 0,
            })


if __name__ == "__main__":
    drv.main(handle)
