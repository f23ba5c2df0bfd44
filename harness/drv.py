"""What every driver shares: reading scenarios, writing records, encoding arrays."""
import faulthandler
import json
import os
import sys
import threading
from time import sleep, time as now
import traceback

import numpy as np

from simmpi import HarnessError

GARBAGE = -999999999
NAN, INF = 777777777, 777777778
MODULUS = {"bool": 2, "int8": 113, "uint8": 251, "int16": 30011, "float16": 2039}


def fill(ids, dtype, special=False):
    """what an array of this type holds for numbered elements (spec/Values.tla)"""
    ids = np.asarray(ids, dtype=np.int64)
    dtype = np.dtype(dtype)
    size, sign = np.abs(ids), np.where(ids < 0, -1, 1)
    m = MODULUS.get(dtype.name, 0)
    a = (sign * (size % m) if m else ids).astype(dtype)
    if dtype.kind == "c":
        a = a * dtype.type(1 + 2j)
    if special and dtype.kind == "f":
        a = np.where(size % 4 == 0, np.nan, np.where(size % 4 == 1, sign * np.inf, a)).astype(dtype)
    return a


def encode(a):
    """array -> flat list of integers in C order; anything else is GARBAGE"""
    a = np.asarray(a)
    f = a.reshape(-1) if a.flags["C_CONTIGUOUS"] else np.ascontiguousarray(a).reshape(-1)
    if f.dtype == bool:
        f = f.astype(np.int64)
    if f.dtype.kind in "iu":
        out = f.astype(np.int64)
        bad = np.abs(out) >= 900000000
    elif f.dtype.kind == "f":
        with np.errstate(all="ignore"):
            g = f.astype(np.float64)
            bad =  (g != np.floor(g)) | (np.abs(g) >= 900000000)
            out = np.where(bad, 0, g).astype(np.int64)
            out = np.where(np.isnan(g), NAN, np.where(np.isinf(g), np.where(g < 0, -INF, INF), out))
            bad &= np.isfinite(g)
    elif f.dtype.kind == "c":
        re, im = encode(f.real), encode(f.imag)
        return [a if b == 2 * a else GARBAGE for a, b in zip(re, im)]
    else:
        return [GARBAGE] * int(f.size)
    out = np.where(bad, GARBAGE, out)
    return [int(v) for v in out]


def main(handle, limit=150):
    """handle(scenario) -> record; the record gets the scenario's id"""
    inp, outp = sys.argv[1], sys.argv[2]
    scenarios = [json.loads(line) for line in open(inp)]
    out = open(outp, "w")
    state = {"id": None, "t": now()}

    def watchdog():
        while True:
            sleep(1)
            if state["id"] is not None and now() - state["t"] > limit:
                faulthandler.dump_traceback()
                out.write(json.dumps({"id": state["id"], "hang": True}) + "\n")
                out.flush()
                os._exit(3)

    threading.Thread(target=watchdog, daemon=True).start()
    for sc in scenarios:
        state["t"] = now()
        state["id"] = sc["id"]
        try:
            rec = handle(sc)
        except HarnessError:
            raise
        except BaseException:
            # what the code returned could not even be observed
            rec = {"crash": traceback.format_exc()[-1500:]}
        state["id"] = None
        rec["id"] = sc["id"]
        out.write(json.dumps(rec) + "\n")
        out.flush()
    out.close()
    os._exit(0)
