"""Driver for conversions of instants and comparisons of units (C27)."""
import datetime
import os
import time
import warnings

import numpy as np

import drv
import fv3gfs.util as util

TEXT = {"t": "\t", "n": "\n"}


def instant(op):
    unit = {"D": "D", "h": "h", "m": "m", "s": "s", "ms": "ms", "us": "us", "ns": "ns"}[op["unit"]]
    us = np.timedelta64(op["us"], "us")
    t = np.datetime64(op["day"], "D") + np.timedelta64(op["sec"], "s")
    if op["us"]:
        t = t + us
    t = t.astype(f"datetime64[{unit}]")
    if op["form"] == "element":
        t = np.array([t, t])[1]
    elif op["form"] == "string":
        t = np.datetime64(str(t), unit)
    return t


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


def handle(sc):
    warnings.simplefilter("ignore")
    obs = []
    zone(sc["zone"])
    for op in sc["ops"]:
        o = {"error": "", "fields": [], "equal": False, "refused": False}
        try:
            if op["op"] == "instant":
                if op["zone"]:
                    zone(op["zone"])
                t = util.datetime64_to_datetime(instant(op))
                if not isinstance(t, datetime.datetime) or t.tzinfo is not None:
                    raise TypeError(repr(t))
                o["fields"] = [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]
            else:
                a, b = ("".join(TEXT.get(c, c) for c in s) for s in (op["a"], op["b"]))
                o["equal"] = bool(util.units_are_equal(a, b))
                try:
                    util.ensure_equal_units(a, b)
                except util.UnitsError:
                    o["refused"] = True
        except Exception as e:
            o["error"] = repr(e)[:300]
        obs.append(o)
    zone("UTC0")
    return {"obs": obs}


if __name__ == "__main__":
    drv.main(handle)
