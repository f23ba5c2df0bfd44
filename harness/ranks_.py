"""Driver for questions about ranks, tiles and places (C24)."""
import re

import numpy as np

import drv
import fv3gfs.util as util
from fv3gfs.util._legacy_restart import get_rank_suffix
from simmpi import World


TURNS = {
    "noturn": 0, "turn": 1, "halfturn": 2, "threeturns": 3, "fullturn": 4, "backturn": -1,
    "fiveturns": 5, "halfback": -2,
}


def tile_partitioner(util, c):
    layout = [c["ly"], c["lx"]]
    if c["make"] == "namelist":
        return util.TilePartitioner.from_namelist({"fv_core_nml": {"layout": layout, "npx": 49}})
    return util.TilePartitioner(tuple(layout) if c["make"] == "tuple" else layout)


def make(insts):
    out = []
    for c in insts:
        if c["of"]:
            out.append(out[c["of"] - 1].tile)
        elif c["kind"] == "tile":
            out.append(tile_partitioner(util, c))
        elif c["make"] == "namelist":
            out.append(
                util.CubedSpherePartitioner.from_namelist(
                    {"fv_core_nml": {"layout": [c["ly"], c["lx"]]}}
                )
            )
        else:
            out.append(util.CubedSpherePartitioner(tile_partitioner(util, c)))
    return out


def answer(op, parts):
    q, r = op["q"], np.int64(op["rank"]) if op["np"] else op["rank"]
    p = parts[op["inst"] - 1] if op["inst"] else None
    if q == "subtile":
        return list(p.subtile_index(r))
    if q in ("left", "right", "top", "bottom"):
        return [bool(getattr(p, "on_tile_" + q)(r))]
    if q == "mirror":
        return [p.fliplr_rank(r)]
    if q in TURNS:
        return [p.rotate_rank(r, TURNS[q])]
    if q == "tile":
        return [p.tile_index(r)]
    if q == "root":
        return [p.tile_root_rank(r)]
    if q == "layout":
        return list(p.layout)
    if q == "total":
        return [p.total_ranks]
    if q == "indexof":
        return [util.get_tile_index(r, op["total"])]
    if q == "numberof":
        return [util.get_tile_number(r, op["total"])]
    if q == "suffix":
        text = get_rank_suffix(r, op["total"])
        found = re.fullmatch(r"\.tile(\d+)\.nc(\.(\d+))?", text)
        return [int(found[1]), len(found[3] or ""), int(found[3] or 0)] if found else [-1, 0, 0]
    wrong = [None, (2, 2), "2x2", util.CubedSpherePartitioner(util.TilePartitioner((1, 1)))]
    util.CubedSpherePartitioner(wrong[op["total"] - 1])
    return []


def ask(sc):
    parts = make(sc["insts"])
    answers = []
    for op in sc["ops"]:
        a = {k: op[k] for k in ("q", "inst", "rank", "total")}
        try:
            a.update(value=[int(v) for v in answer(op, parts)], error="")
        except Exception as e:
            a.update(value=[], error=type(e).__name__)
        answers.append(a)
    return {"kind": "ask", "insts": sc["insts"], "answers": answers}


def run(sc):
    ly, lx = sc["layout"]
    n = 6 * ly * lx
    world = World(n, seed=sc["seed"], policy=sc["policy"], sync=sc["sync"], isolate=True)
    found = [
        {"error": "did not finish", "rank": -1, "tile_rank": -1, "tile_total": -1, "tile_layout": [],
         "whole": [], "everyone": [], "neighbours": [], "from": True}
        for _ in range(n)
    ]

    def rank_main(rank, comm):
        util = world.modules[rank].util
        cube = util.CubedSphereCommunicator(
            comm, util.CubedSpherePartitioner(util.TilePartitioner((ly, lx)))
        )
        f, more = found[rank], sc["again"][rank]

        def neighbours(times):
            for _ in range(times):
                if ly == lx:
                    got = cube.boundaries
                    f["neighbours"] = sorted([int(b), int(x.to_rank)] for b, x in got.items())
                    f["from"] = all(int(x.from_rank) == rank for x in got.values())
                f["rank"] = int(cube.rank)

        def own_tile(times):
            for _ in range(times):
                f["tile_rank"] = int(cube.tile.rank)
                f["tile_total"] = int(cube.tile.partitioner.total_ranks)
                f["tile_layout"] = [int(v) for v in cube.tile.partitioner.layout]

        def gathered(c):
            q = util.Quantity(
                np.full((1, 1), rank, dtype=np.int64), dims=["y", "x"], units=""
            )
            got = c.gather(q)
            return [] if got is None else drv.encode(got.view[:])

        def update():
            # a halo update of a field of this rank's own, where the cube is square
            if ly == lx and sc.get("updates", True):
                q = util.Quantity(
                    np.full((3, 3), rank, dtype=np.int64), dims=["y", "x"], units="",
                    origin=(1, 1), extent=(1, 1),
                )
                cube.halo_update(q, 1)

        try:
            if sc["again"][0][0] == 1:
                update()
            neighbours(more[0])
            own_tile(1)  # all ranks come here
            neighbours(more[1])
            if sc["again"][0][1] != 0:
                update()
            own_tile(more[2])
            first = gathered(cube.tile)
            f["everyone"] = gathered(cube)
            own_tile(more[3])
            if sc["again"][0][2] == 0:
                update()
            # a rank asks on its own, as often as it likes
            own_tile(more[0] + more[1])
            neighbours(1)
            f["whole"] = gathered(cube.tile)
            f["error"] = "" if f["whole"] == first else "two gathers differ"
        except Exception as e:
            f["error"] = repr(e)[:200]

    world.run(rank_main)
    return {
        "kind": "run", "layout": sc["layout"], "ranks": found,
        "stuck": ("deadlock" if world.deadlock else "") + "; ".join(world.violations)[:300],
    }


def handle(sc):
    return ask(sc) if sc["kind"] == "ask" else run(sc)


if __name__ == "__main__":
    drv.main(handle)
