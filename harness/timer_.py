"""Driver for timers (C19), on a clock that only moves when told to."""
import time
import timeit
import warnings

import drv

NOW = [0.0]


def fake():
    return 1000.0 + NOW[0]


timeit.default_timer = time.perf_counter = time.monotonic = time.time = time.process_time = fake
time.perf_counter_ns = time.monotonic_ns = time.time_ns = lambda: int(fake() * 10**9)

import fv3gfs.util as util  # noqa: E402


class Mine(BaseException):
    pass


class Ordinary(Exception):
    pass


def show(d):
    """times and counts are whole numbers here, up to the rounding of the clock's unit"""
    return [[k, drv.encode([round(v) if abs(v - round(v)) < 1e-5 else v])[0]] for k, v in d.items()]


def handle(sc):
    NOW[0] = 0.0
    timers = [util.Timer(), util.Timer(), util.NullTimer()]
    blocks, obs, reports = [], [], []
    for step, op in enumerate(sc["ops"]):
        t = timers[op["timer"] - 1]
        r = {"error": False, "entered": False, "block": [], "own": True}
        kind = op["op"]
        exc = (Mine if step % 3 == 0 else Ordinary)("leaving")
        try:
            if kind in ("start", "stop"):
                getattr(t, kind)(op["name"])
            elif kind in ("reset", "enable", "disable"):
                getattr(t, kind)()
            elif kind == "tick":
                NOW[0] += op["k"]
            elif kind == "enter":
                cm = t.clock(op["name"])
                cm.__enter__()
                r["entered"] = True
                blocks.append((op["timer"], op["name"], cm))
            elif kind in ("leave", "raise") and blocks:
                which, name, cm = blocks.pop(max(-len(blocks), -op["back"]))
                r["block"] = [which, name]
                if kind == "leave":
                    cm.__exit__(None, None, None)
                else:
                    try:
                        raise exc
                    except (Mine, Ordinary) as e:
                        if not cm.__exit__(type(e), e, e.__traceback__):
                            raise
            elif kind == "raise in":
                with t.clock(op["name"]):
                    NOW[0] += op["k"]
                    raise exc
            elif kind == "scribble":
                for d in (t.times, t.hits):
                    try:
                        d["scribbled"] = 5
                        d.pop(op["name"], None)
                    except (TypeError, AttributeError):
                        pass  # a report that cannot be written to is as good as a copy
        except (Mine, Ordinary) as e:
            r["error"], r["own"] = True, e is exc
        except Exception:
            # the exception of a block may be replaced by that of a clock that does not run
            r["error"], r["own"] = True, False
        r["timers"] = []
        for t in timers:
            warned = []
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                times = t.times
                warned.append(any(issubclass(w.category, RuntimeWarning) for w in caught))
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                hits = t.hits
                warned.append(any(issubclass(w.category, RuntimeWarning) for w in caught))
            reports.append((times, dict(times), hits, dict(hits)))
            r["timers"].append({"on": bool(t.enabled), "times": show(times), "hits": show(hits), "warned": warned})
        r["reports"] = all(dict(a) == b and dict(c) == d for a, b, c, d in reports)
        obs.append(r)
    for _, _, cm in blocks:
        try:
            cm.__exit__(None, None, None)
        except Exception:
            pass
    return {"obs": obs}


if __name__ == "__main__":
    drv.main(handle)
