"""Driver for the stand-in communicator (C22)."""
import numpy as np

import drv

from fv3gfs.util.testing import DummyComm


def handle(sc):
    n, shape, dtype = sc["n"], tuple(sc["shape"]), sc["dtype"]
    size = int(np.prod(shape))
    shared = {}
    world = [DummyComm(r, n, shared) for r in range(n)]
    split = {}

    def of_group(number):
        # the communicators of a group; all ranks split when one of the split's is first used
        group = sc["groups"][number - 1]
        j = group["split"]
        if j and j not in split:
            colours = sc["splits"][j - 1]
            split[j] = [c.Split(color=colours[r], key=r) for r, c in enumerate(world)]
        return [(split[j] if j else world)[r] for r in group["ranks"]]

    posted, obs = {}, []

    def block(step, rank):
        return (1000 * step + 100 * rank + np.arange(1, size + 1)).astype(dtype).reshape(shape)

    for step, op in enumerate(sc["ops"], 1):
        r = {"error": False, "got": [], "who": []}
        comms, kind = of_group(op["grp"]), op["op"]
        comm, n = comms[op["rank"]], len(comms)
        mine = block(step, 0)
        recv = np.full(shape, -5, dtype=dtype)
        try:
            if kind == "bcast":
                r["got"] = [int(comm.bcast(step if op["rank"] == 0 else None))]
            elif kind == "scatter":
                send = np.stack([block(step, k) for k in range(n)]) if op["rank"] == 0 else None
                comm.Scatter(send, recv, root=0)
                r["got"] = drv.encode(recv)
                if send is not None:
                    send[...] = -9
            elif kind == "gather":
                whole = np.full((n,) + shape, -5, dtype=dtype) if op["rank"] == op["root"] else None
                comm.Gather(mine, whole, root=op["root"])
                if whole is not None:
                    r["got"] = drv.encode(whole)
            elif kind == "send":
                if op["block"]:
                    comm.Send(mine, op["peer"], tag=op["tag"])
                else:
                    comm.Isend(mine, op["peer"], tag=op["tag"]).wait()
            elif kind == "recv":
                comm.Recv(recv, op["peer"], tag=op["tag"])
                r["got"] = drv.encode(recv)
            elif kind == "post":
                posted[op["no"]] = (comm.Irecv(recv, op["peer"], tag=op["tag"]), recv)
            elif kind == "wait":
                req, recv = posted.pop(op["no"])
                req.wait()
                r["got"] = drv.encode(recv)
            else:
                comm.barrier()
        except Exception:
            r["error"] = True
        r["who"] = [int(comm.Get_rank()), int(comm.Get_size())]
        # the sender may use its array again
        mine[...] = -9
        obs.append(r)
        if r["error"]:
            break
    while len(obs) < len(sc["ops"]):
        obs.append({"error": True, "got": [], "who": []})
    return {"obs": obs}


if __name__ == "__main__":
    drv.main(handle)
