"""Driver for neighbour topology (C01)."""
import drv
import fv3gfs.util as util


def make(insts):
    out = []
    for c in insts:
        if c["kind"] == "cube":
            out.append(util.CubedSpherePartitioner(util.TilePartitioner((c["ly"], c["lx"]))))
        elif c["of"]:
            out.append(out[c["of"] - 1].tile)
        else:
            out.append(util.TilePartitioner((c["ly"], c["lx"])))
    return out


def handle(sc):
    parts = make(sc["insts"])
    given, answers = {}, []
    for k, op in enumerate(sc["ops"]):
        if op["op"] == "query":
            b = parts[op["inst"] - 1].boundary(op["b"], op["rank"])
            given[k + 1] = b
            a = {"inst": op["inst"], "b": op["b"], "rank": op["rank"], "none": b is None}
            a.update(
                {"to": -1, "turns": 0, "from": -1}
                if b is None
                else {
                    "to": int(b.to_rank), "turns": int(b.n_clockwise_rotations),
                    "from": int(b.from_rank),
                }
            )
            answers.append(a)
        elif op["op"] == "spoil" and given.get(op["answer"]) is not None:
            try:
                setattr(given[op["answer"]], op["field"], op["value"])
            except AttributeError:
                pass  # a frozen answer cannot be spoiled
    return {"answers": answers, "ops": []}


if __name__ == "__main__":
    drv.main(handle)
