"""C17: directories of restart files opened by all ranks."""
import json
import os

import kit


def run(ctx):
    os.environ["TABLE"] = os.path.join(kit.SPEC, "RestartTable.json")
    ctx.design("PartitionMC", "SPECIFICATION Spec\nCONSTANTS MaxP = 20 MaxM = 5\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    sc = ctx.generate("RestartGen", "MaxRanks = 24", ctx.size(120, 2500), 30, "r")
    sc.append(whole_table())
    ctx.conform("restart", "RestartTrace", sc, chunk=300)


def whole_table():
    """every variable of the published table at once"""
    table = json.load(open(os.environ["TABLE"]))
    dims = {"y": ("y", 0, 2), "y_interface": ("y", 1, 2), "x": ("x", 0, 4), "x_interface": ("x", 1, 4),
            "z": ("o", 0, 2), "z_interface": ("o", 1, 2), "z_soil": ("o", 0, 4)}
    return {
        "id": "table", "layout": [1, 2], "n": [2, 2, 2, 4], "nv": len(table), "label": "", "coupler": True,
        "time": [2016, 8, 1, 900], "calendar": 2, "sfc": True, "phy": True, "tracers": False, "select": False,
        "only": [], "given": False, "recvTime": False, "policy": "stay", "sync": False, "seed": 2, "netcdf4": False,
        "vars": [
            {**e, "tracer": False, "where": 1 + k % 5, "dtype": "float64", "pre": False, "lpad": [[0, 0]] * 3,
             "fileUnits": "none",
             "dims": [dict(zip(("axis", "iface", "cells"), dims[d]), name=d) for d in e["dims"]]}
            for k, e in enumerate(table)
        ],
    }
