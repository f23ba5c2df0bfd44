"""Driver for pooled buffers (C20)."""
import warnings

import numpy as np

import drv

import fv3gfs.util as util

MADE = []  # (memory, number of its allocator), for the life of the process


def allocator(k, fill):
    def make(shape, dtype=float, **kw):
        a = np.empty(shape, dtype=dtype, **kw)
        a[...] = fill
        MADE.append((a, k))
        return a

    return make


ALLOCATORS = [allocator(1, 77), allocator(2, 88), allocator(3, 99)]


class Leave(Exception):
    pass


def number(buf):
    """which of the memories made by our allocators this is"""
    for k, (a, _) in enumerate(MADE):
        if np.shares_memory(a, buf):
            return k + 1, MADE[k][1]
    return 0, 0


def make_array(a, base, special):
    shape, dtype, layout = tuple(a["shape"]), a["dtype"], a["layout"]
    n = int(np.prod(shape))
    whole = tuple(slice(None) for _ in shape)

    def memory_of(sh, order="C"):
        return np.full(sh, 55, dtype=dtype, order=order)

    if layout == "C":
        memory = memory_of(shape)
        part = whole
    elif layout == "F":
        memory = memory_of(shape, order="F")
        part = whole
    elif layout == "strided":
        memory = memory_of(shape[:-1] + (2 * shape[-1],))
        part = (Ellipsis, slice(None, None, 2))
    elif layout == "columns":  # the first columns of a wider array
        memory = memory_of(shape[:-1] + (shape[-1] + 1,))
        part = (Ellipsis, slice(0, -1))
    elif layout == "reversed":
        memory = memory_of(shape)
        part = (Ellipsis, slice(None, None, -1))
    elif layout == "rows reversed":
        memory = memory_of(shape)
        part = slice(None, None, -1)
    elif layout == "all reversed":
        memory = memory_of(shape)
        part = tuple(slice(None, None, -1) for _ in shape)
    elif layout == "transposed":
        memory = memory_of(shape[::-1]).T
        part = whole
    elif layout == "swapped":  # the last two axes (if there are two) lie the other way round
        memory = memory_of(shape[:-2] + shape[:-3:-1]).swapaxes(-1, -2) if len(shape) > 1 else memory_of(shape)
        part = whole
    elif layout == "rolled":  # the last axis lies first
        memory = np.moveaxis(memory_of(shape[-1:] + shape[:-1]), 0, -1)
        part = whole
    elif layout == "part":
        memory = memory_of(tuple(s + 2 for s in shape))
        part = tuple(slice(1, -1) for _ in shape)
    elif layout == "C part":
        memory = memory_of((shape[0] + 2,) + shape[1:])
        part = slice(1, -1)
    else:  # repeated: one row seen many times, which cannot be written
        memory = drv.fill(np.arange(base, base + n // shape[0]), dtype, special).reshape(shape[1:])
        v = np.broadcast_to(memory, shape)
        return v, memory, np.zeros(memory.shape, dtype=bool)
    v = memory[part]
    assert v.shape == shape
    v[...] = drv.fill(np.arange(base, base + n), dtype, special).reshape(shape)
    mask = np.ones(memory.shape, dtype=bool)
    mask[part] = False
    return v, memory, mask


def handle(sc):
    arrays, around = [], []
    for k, a in enumerate(sc["arrays"]):
        v, memory, mask = make_array(a, 300 * (k + 1), sc["special"])
        arrays.append(v)
        around.append((memory, mask))
    first = [drv.encode(v) for v in arrays]
    held, obs = {}, []
    timers = {"on": util.Timer(), "off": util.Timer(), "null": util.NullTimer()}
    timers["off"].disable()
    for step, op in enumerate(sc["ops"], 1):
        r = {"error": False, "overlaps": [], "isArray": False, "isNone": False, "contiguous": False,
             "contiguousArray": False, "shape": [], "dtype": "", "alloc": 0, "buffer": 0, "data": []}
        if op["op"] == "acquire":
            alloc = ALLOCATORS[op["alloc"] - 1]
            array = arrays[op["array"] - 1] if op["array"] else None
            timed = {} if op["timer"] == "no" else {"timer": timers[op["timer"]]}
            if op["kind"] == "array":
                cm = util.array_buffer(alloc, tuple(op["shape"]), np.dtype(op["dtype"]))
            elif op["kind"] == "send":
                cm = util.send_buffer(alloc, array, **timed)
            else:
                cm = util.recv_buffer(alloc, array, **timed)
            buf = cm.__enter__()
            r["isNone"] = buf is None
            if buf is not None:
                r["contiguousArray"] = bool(array is not None and array.flags["C_CONTIGUOUS"])
                # a view of the whole array counts as the array
                r["isArray"] = array is not None and (
                    buf is array or (buf.shape == array.shape and buf.dtype == array.dtype and buf.strides == array.strides
                                     and buf.ctypes.data == array.ctypes.data)
                )
                if not r["isArray"]:
                    r["overlaps"] = [n for n, (_, b, _) in held.items() if b is not None and np.shares_memory(b, buf)]
                    r["overlaps"] += [-k for k, a in enumerate(arrays) if np.shares_memory(a, buf)]
                r["buffer"], r["alloc"] = number(buf)
                r["contiguous"] = bool(buf.flags["C_CONTIGUOUS"])
                r["shape"], r["dtype"], r["data"] = list(buf.shape), str(buf.dtype), drv.encode(buf)
            held[op["no"]] = (cm, buf, op["kind"])
        elif op["op"] == "write":
            buf = held[op["no"]][1]
            buf[...] = 0 if op["zero"] else drv.fill(np.arange(1000 * step + 1, 1000 * step + 1 + buf.size), buf.dtype, sc["special"]).reshape(buf.shape)
        elif op["op"] == "release":
            cm, buf, kind = held.pop(op["no"])
            if op["exc"]:
                try:
                    raise Leave()
                except Leave as e:
                    try:
                        if cm.__exit__(type(e), e, e.__traceback__):
                            r["error"] = True  # the exception was swallowed
                    except Leave as got:
                        r["error"] = got is not e
            else:
                cm.__exit__(None, None, None)
        r["idle"] = True
        try:
            for t in timers.values():
                t.disable()  # refused while a clock runs
            timers["on"].enable()
        except RuntimeError:
            r["idle"] = False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r["hits"] = [[timers[w].hits.get(n, 0) for n in ("pack", "unpack")] for w in ("on", "off", "null")]
        r["arrays"] = [drv.encode(a) for a in arrays]
        r["buffers"] = [{"no": n, "data": drv.encode(b)} for n, (_, b, _) in held.items() if b is not None]
        r["around"] = all(bool(np.all(m[k] == np.asarray(55).astype(m.dtype))) for m, k in around)
        obs.append(r)
    for cm, _, _ in held.values():
        try:
            cm.__exit__(Leave, Leave(), None)
        except Leave:
            pass
    return {"obs": obs, "first": first}


if __name__ == "__main__":
    drv.main(handle)
