"""Driver for nudging (C18)."""
from datetime import timedelta

import numpy as np

import drv
from drv import GARBAGE

import fv3gfs.util as util


def odd(a):
    while a % 2 == 0:
        a //= 2
    return a


def duration(c):
    return timedelta(seconds=c // 64, microseconds=(c % 64) * 15625)


def counted(a, fine):
    """how many 1/fine each number is, tolerating rounding of the last bits"""
    x = np.asarray(a, dtype=np.float64).reshape(-1) * fine
    out = []
    for v in x:
        ok = np.isfinite(v) and abs(v - round(v)) < 1e-3 and abs(v) < 2e9
        out.append(int(round(v)) if ok else GARBAGE)
    return out


def make(dims, which, dtype, mem, units):
    pads = [d[which] for d in dims]
    shape = tuple(p[0] + d["extent"] + p[1] for d, p in zip(dims, pads))
    if mem == "F":
        data = np.zeros(shape, dtype=dtype, order="F")
    elif mem == "strided" and shape:
        data = np.zeros(shape[:-1] + (2 * shape[-1],), dtype=dtype)[..., ::2]
    elif mem == "reversed" and shape:
        data = np.zeros(shape, dtype=dtype)[(slice(None, None, -1),) * len(shape)]
    elif mem == "inner" and shape:
        data = np.zeros(tuple(n + 2 for n in shape), dtype=dtype)[(slice(1, -1),) * len(shape)]
    else:
        data = np.zeros(shape, dtype=dtype)
    return util.Quantity(
        data, [d["name"] for d in dims], units,
        origin=tuple(p[0] for p in pads), extent=tuple(d["extent"] for d in dims),
    )


def outside(q):
    mask = np.ones(q.data.shape, dtype=bool)
    mask[tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))] = False
    return np.asarray(q.data)[mask].copy()


def handle(sc):
    rng = np.random.RandomState(sc["seed"])
    state, ref = {}, {}
    for v in sc["vars"]:
        state[v["name"]] = make(v["dims"], "pad", v["dtype"], v["mem"], v["units"])
        ref[v["name"]] = make(v["dims"], "rpad", v["rdtype"], "C", v["units"])
    if sc["time"]:
        state["time"], ref["time"] = "now", "then"
    ref["only here"] = util.Quantity(np.ones(2), ["x"], "m")
    obs, kept = [], []
    for op in sc["ops"]:
        scales = {t["name"]: t["scale"] for t in op["ts"]}
        r = {"vars": []}
        for v in sc["vars"]:
            q, f = state[v["name"]], ref[v["name"]]
            step = odd(scales.get(v["name"], 1))
            q.data[...] = rng.randint(-500, 500, size=q.data.shape)
            f.data[...] = rng.randint(-500, 500, size=f.data.shape)
            q.view[:] = rng.randint(-50, 50, size=q.extent)
            narrow = "float32" in (v["dtype"], v["rdtype"])
            far = 2 if narrow else 20
            f.view[:] = np.asarray(q.view[:]) + step * rng.randint(-far, far + 1, size=q.extent)
            if v["name"] not in scales:
                f.view[:] = rng.randint(-50, 50, size=q.extent)
        use_state = dict(state)
        use_ref = use_state if op["self"] else dict(ref)
        for name in op["lost"]:
            if op["from"] in ("state", "both"):
                use_state.pop(name, None)
            if op["from"] in ("reference", "both"):
                use_ref.pop(name, None)
        times = {t["name"]: duration(t["scale"]) for t in op["ts"]}
        if op["lost"] == ["unknown"]:
            times["unknown"] = timedelta(seconds=1)
        pre = {}
        for v in sc["vars"]:
            q, f = state[v["name"]], ref[v["name"]]
            pre[v["name"]] = (np.array(q.view[:]), outside(q), np.array(f.data))
        before = (dict(use_state), dict(use_ref))
        r["have"], r["ref"] = list(use_state), list(use_ref)
        given = dict(times)
        try:
            if op["op"] == "apply":
                tend = util.apply_nudging(use_state, use_ref, times, duration(op["dt"]))
            else:
                tend = util.get_nudging_tendencies(use_state, use_ref, times)
            r["error"] = False
        except Exception:
            tend, r["error"] = {}, True
        r["tendNames"] = list(tend)
        same = (
            list(use_state) == list(before[0]) and all(use_state[k] is before[0][k] for k in use_state)
            and list(use_ref) == list(before[1]) and all(use_ref[k] is before[1][k] for k in use_ref)
            and times == given and np.all(ref["only here"].data == 1)
        )
        r["restSame"] = bool(same)
        for v in sc["vars"]:
            q, f = state[v["name"]], ref[v["name"]]
            a = scales.get(v["name"], 1)
            fine = (a // odd(a)) if v["name"] in scales and op["op"] == "apply" and not r["error"] else 1
            view, out, rdata = pre[v["name"]]
            t = tend.get(v["name"])
            r["vars"].append({
                "state": drv.encode(view),
                "ref": drv.encode(view if op["self"] else ref_view(f, rdata)),
                "after": counted(q.view[:], fine),
                "outside": bool(np.array_equal(outside(q), out)) and q.units == v["units"],
                "refSame": bool(np.array_equal(np.asarray(f.data), rdata)),
                "tend": [] if t is None else [{
                    "values": counted(t.view[:], a // odd(a)), "dims": list(t.dims), "units": t.units,
                    "extent": [int(e) for e in t.extent],
                }],
            })
        kept.append((tend, {n: np.array(t.data) for n, t in tend.items()}))
        # tendencies returned earlier belong to the caller
        for old, copy in kept:
            for n, t in old.items():
                if not np.array_equal(np.asarray(t.data), copy[n]):
                    r["restSame"] = False
        obs.append(r)
    return {"obs": obs}


def ref_view(f, data):
    return data[tuple(slice(o, o + e) for o, e in zip(f.origin, f.extent))]


if __name__ == "__main__":
    drv.main(handle)
