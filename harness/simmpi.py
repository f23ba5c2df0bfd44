"""A simulated MPI for driving the code under test.

One thread per rank, but only one thread runs at a time: every MPI call is a
scheduling point, at which a seeded policy picks the rank that continues.  The
simulation keeps to what MPI promises and takes every liberty MPI allows:

* messages match by communicator, source, destination and tag, and do not overtake;
* a send is eager (its buffer is read at the call) or rendezvous (its buffer is
  read when the matching receive is posted, and waiting for it blocks until then);
* a collective may, or may not, let a rank leave before the others arrive;
* buffers must be contiguous, messages must not be longer than the receive buffer;
* mismatched collectives and deadlocks are detected and reported;
* pickled objects are unpickled in the receiving rank, as in another process.

With `isolate=True` every rank has its own copy of the fv3gfs package (module
globals, caches, classes), installed in sys.modules while that rank runs, as if it
were a process of its own.
"""
import os
import pickle
import random
import sys
import threading
import traceback

import numpy as np

ANY_SOURCE = -1
ANY_TAG = -1


class MPIError(Exception):
    """an erroneous use of MPI by the program (real MPI aborts, or misbehaves)"""


class HarnessError(Exception):
    """the simulation does not support what the program did"""


class _Abort(BaseException):
    """unwinds the threads of a world that is stuck"""


_PREFIX = "fv3gfs"


def _package_modules():
    return {
        k: m
        for k, m in list(sys.modules.items())
        if k == _PREFIX or k.startswith(_PREFIX + ".")
    }


class ModuleSet:
    """a private copy of the package under test"""

    def __init__(self, imports=("fv3gfs.util", "fv3gfs.util.testing")):
        saved = _package_modules()
        for k in saved:
            del sys.modules[k]
        import importlib

        try:
            for name in imports:
                importlib.import_module(name)
            self.modules = _package_modules()
        finally:
            for k in _package_modules():
                del sys.modules[k]
            sys.modules.update(saved)

    def install(self):
        for k in _KEYS_INSTALLED[0]:
            sys.modules.pop(k, None)
        sys.modules.update(self.modules)
        _KEYS_INSTALLED[0] = set(self.modules)
        self._n = len(sys.modules)

    def save(self):
        if len(sys.modules) != self._n:  # lazily imported since
            self.modules = _package_modules()
            _KEYS_INSTALLED[0] |= set(self.modules)

    @property
    def util(self):
        return self.modules["fv3gfs.util"]


_KEYS_INSTALLED = [set()]
_POOL = []


def module_pool(n):
    while len(_POOL) < n:
        _POOL.append(ModuleSet())
    return _POOL[:n]


class World:
    """n ranks running a function, under a seeded schedule"""

    def __init__(
        self, n, seed=0, policy="random", delivery="eager", sync=False, isolate=True
    ):
        self.n = n
        self.rng = random.Random(seed)
        self.policy = policy
        self.delivery = delivery
        self.sync = sync
        self.modules = module_pool(n) if isolate else None
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.ready = [None] * n  # None: runnable; callable: runnable when true
        self.finished = [False] * n
        self.outcome = [None] * n
        self.result = [None] * n
        self.current = None
        self.aborting = False
        self.deadlock = False
        self.harness_error = None
        self.log = []
        self.steps = 0
        self.switches = 0
        self.comms = []
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        self.violations = []  # misuse of MPI

    # -- scheduling ---------------------------------------------------------
    def _runnable(self):
        out = []
        for r in range(self.n):
            if not self.finished[r]:
                pred = self.ready[r]
                if pred is None or pred():
                    out.append(r)
        return out

    def _pick(self, cand):
        if self.policy == "random":
            return self.rng.choice(cand)
        if self.policy == "stay":  # run to block, sometimes switch
            if self.current in cand and self.rng.random() > 0.03:
                return self.current
            return self.rng.choice(cand)
        if self.policy == "prio":  # priorities, with random changes
            if self.rng.random() < 0.02:
                r = self.rng.choice(cand)
                self.prio[r] = max(self.prio) + 1
            return min(cand, key=lambda r: self.prio[r])
        if self.policy == "rr":
            later = [r for r in cand if self.current is None or r > self.current]
            return min(later) if later else min(cand)
        raise HarnessError(self.policy)

    def _switch_from(self, rank):
        """called by the running rank (or with None at the start): hand over"""
        self.steps += 1
        cand = self._runnable()
        if not cand:
            if all(self.finished):
                self.done.release()
                return None
            self.deadlock = True
            self.aborting = True
            cand = [r for r in range(self.n) if not self.finished[r]]
            nxt = cand[0]
        else:
            nxt = self._pick(cand) if not self.aborting else cand[0]
        if nxt == rank:
            return rank
        self.switches += 1
        if self.modules is not None:
            if rank is not None:
                self.modules[rank].save()
            self.modules[nxt].install()
        self.current = nxt
        self.locks[nxt].release()
        return nxt

    def step(self, rank, pred=None):
        """a scheduling point of a rank, which goes on when pred() holds"""
        if self.aborting:
            raise _Abort()
        self.ready[rank] = pred
        if self._switch_from(rank) != rank:
            self.locks[rank].acquire()
        self.ready[rank] = None
        if self.aborting:
            raise _Abort()

    def here(self):
        """scheduling point of whichever rank is running (for stores and the like)"""
        if threading.current_thread() in self._threads:
            self.step(self.current)

    def _main(self, rank, fn):
        self.locks[rank].acquire()
        try:
            if not self.aborting:
                self.result[rank] = fn(rank, self.world_comm.view(rank))
                self.outcome[rank] = ("ok", "")
            else:
                self.outcome[rank] = ("stuck", "")
        except _Abort:
            self.outcome[rank] = ("stuck", "")
        except HarnessError as e:
            self.harness_error = traceback.format_exc()
            self.outcome[rank] = ("harness", repr(e))
        except MPIError as e:
            self.violations.append(f"rank {rank}: {e}")
            self.outcome[rank] = ("mpi", str(e))
        except BaseException as e:  # noqa: the code under test may raise anything
            self.outcome[rank] = ("error", type(e).__name__, str(e)[:300])
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        self.finished[rank] = True
        self.ready[rank] = None
        self._switch_from(rank)

    def run(self, fn):
        self.world_comm = _CommState(self, list(range(self.n)))
        saved = _package_modules()
        _KEYS_INSTALLED[0] = set(saved)
        self._threads = [
            threading.Thread(target=self._main, args=(r, fn), daemon=True)
            for r in range(self.n)
        ]
        for t in self._threads:
            t.start()
        self._switch_from(None)
        self.done.acquire()
        for t in self._threads:
            t.join()
        if self.modules is not None:
            for k in _package_modules():
                del sys.modules[k]
            sys.modules.update(saved)
        if self.harness_error:
            raise HarnessError(self.harness_error)
        return self.result

    def leftover(self):
        """messages sent but never received, and receives never matched"""
        return sum(c.leftover() for c in self.comms)


class _Message:
    __slots__ = ("src", "dst", "tag", "data", "buf", "matched", "kind")


class _Posted:
    __slots__ = ("src", "tag", "buf", "message", "kind", "obj", "error")


def _contig(buf):
    if isinstance(buf, (list, tuple)) and len(buf) >= 1:
        buf = buf[0]
    if buf is None:
        return None
    if not isinstance(buf, np.ndarray):
        buf = np.asarray(memoryview(buf))
    if not (buf.flags["C_CONTIGUOUS"] or buf.flags["F_CONTIGUOUS"]):
        raise ValueError("ndarray is not contiguous")
    if buf.dtype == object:
        raise ValueError("cannot send an object array")
    return buf


def _bytes_view(buf):
    """writable byte view of a contiguous array, in memory order"""
    flat = buf.ravel(order="K") if buf.ndim else buf.reshape(1)
    if buf.size and not np.shares_memory(flat, buf):
        raise HarnessError("no flat view")
    return flat.view(np.uint8)


def _need(buf, what):
    if buf is None:
        raise MPIError(f"no {what} buffer")
    return buf


def _fill(dst, data):
    if not dst.flags["WRITEABLE"]:
        raise MPIError("receive into a read-only buffer")
    view = _bytes_view(dst)
    if len(data) > len(view):
        raise MPIError(f"message truncated: {len(data)} > {len(view)} bytes")
    view[: len(data)] = np.frombuffer(data, dtype=np.uint8)


class Request:
    def __init__(self, world, rank, complete, finish):
        self._world, self._rank = world, rank
        self._complete, self._finish = complete, finish
        self._finished = False
        self._value = None

    def _wait(self):
        if self._finished:
            return self._value  # MPI_REQUEST_NULL: returns at once
        self._world.step(self._rank, self._complete)
        self._value = self._finish()
        self._finished = True
        return self._value

    def wait(self, status=None):
        return self._wait()

    def Wait(self, status=None):
        self._wait()
        return True

    def Test(self, status=None):
        self._world.step(self._rank)
        if self._complete():
            self._wait()
            return True
        return False

    def test(self, status=None):
        ok = self.Test()
        return ok, self._value if ok else None

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.Wait()
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]


class _CommState:
    """what the ranks of one communicator share"""

    def __init__(self, world, members):
        self.world = world
        self.members = members  # world ranks, by rank in this communicator
        self.unexpected = {}  # dst -> [message]
        self.posted = {}  # dst -> [posted]
        self.seq = [0] * len(members)
        self.slots = {}
        world.comms.append(self)

    def view(self, rank):
        return Comm(self, rank)

    def leftover(self):
        return sum(len(v) for v in self.unexpected.values()) + sum(
            len(v) for v in self.posted.values()
        )

    # -- point to point --------------------------------------------------------
    @staticmethod
    def _match(p, m):
        return (
            p.src in (ANY_SOURCE, m.src)
            and p.tag in (ANY_TAG, m.tag)
            and p.kind == m.kind
        )

    def _deliver(self, m, p):
        m.matched = True
        p.message = m
        data = m.data if m.data is not None else m.buf.tobytes(order="A")
        m.data = data
        if p.kind == "buf":
            try:
                _fill(p.buf, data)
            except MPIError as e:
                p.error = e

    def send(self, m):
        for i, p in enumerate(self.posted.get(m.dst, [])):
            if self._match(p, m):
                self.posted[m.dst].pop(i)
                self._deliver(m, p)
                return
        self.unexpected.setdefault(m.dst, []).append(m)

    def receive(self, dst, p):
        for i, m in enumerate(self.unexpected.get(dst, [])):
            if self._match(p, m):
                self.unexpected[dst].pop(i)
                self._deliver(m, p)
                return
        self.posted.setdefault(dst, []).append(p)


class Comm:
    """what a rank sees of a communicator, with the interface of mpi4py"""

    def __init__(self, state, rank):
        self._s = state
        self._rank = rank
        self._w = state.world
        self._wr = state.members[rank]

    # pickling a communicator is an error in mpi4py too
    def __getstate__(self):
        raise TypeError("cannot pickle a communicator")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessError(f"simulated MPI has no Comm.{name}")

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._s.members)

    rank = property(Get_rank)
    size = property(Get_size)

    def _check_peer(self, r, any_ok=False):
        if any_ok and r == ANY_SOURCE:
            return
        if not (0 <= r < len(self._s.members)):
            raise MPIError(f"invalid rank {r}")

    def _check_tag(self, tag):
        if not (isinstance(tag, (int, np.integer)) and 0 <= tag <= 2 ** 31 - 1):
            raise MPIError(f"invalid tag {tag}")

    def _send(self, buf, dest, tag, kind, synchronous=False):
        dest = int(dest)
        self._check_peer(dest)
        self._check_tag(tag)
        m = _Message()
        m.src, m.dst, m.tag, m.kind, m.matched = self._rank, dest, int(tag), kind, False
        delivery = self._w.delivery
        if delivery == "mixed":
            delivery = self._w.rng.choice(["eager", "rendezvous"])
        if synchronous:
            delivery = "rendezvous"
        m.data, m.buf = None, None
        if kind == "obj":
            m.data = pickle.dumps(buf)
        elif delivery == "eager":
            m.data = _need(_contig(buf), "send").tobytes(order="A")
        else:
            m.buf = _need(_contig(buf), "send")
        self._w.step(self._wr)
        self._s.send(m)
        if delivery == "eager":
            return Request(self._w, self._wr, lambda: True, lambda: None)
        return Request(self._w, self._wr, lambda: m.matched, lambda: None)

    def _recv(self, buf, source, tag, kind):
        source = int(source)
        self._check_peer(source, any_ok=True)
        if tag != ANY_TAG:
            self._check_tag(tag)
        p = _Posted()
        p.src, p.tag, p.kind = source, int(tag), kind
        p.message, p.error = None, None
        p.buf = None if kind == "obj" else _need(_contig(buf), "receive")
        self._w.step(self._wr)
        self._s.receive(self._rank, p)

        def finish():
            if p.error is not None:
                raise p.error
            if kind == "obj":
                return pickle.loads(p.message.data)

        return Request(self._w, self._wr, lambda: p.message is not None, finish)

    def Isend(self, buf, dest, tag=0):
        return self._send(buf, dest, tag, "buf")

    def Issend(self, buf, dest, tag=0):
        return self._send(buf, dest, tag, "buf", synchronous=True)

    def Send(self, buf, dest, tag=0):
        self._send(buf, dest, tag, "buf").wait()

    def Ssend(self, buf, dest, tag=0):
        self.Issend(buf, dest, tag).wait()

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return self._recv(buf, source, tag, "buf")

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._recv(buf, source, tag, "buf").wait()

    def Sendrecv(
        self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG,
        status=None,
    ):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        r.wait()
        s.wait()

    def isend(self, obj, dest, tag=0):
        return self._send(obj, dest, tag, "obj")

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._recv(None, source, tag, "obj")

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._recv(None, source, tag, "obj").wait()

    # -- collectives ------------------------------------------------------------
    def _collective(self, op, root, contribution, leave):
        """leave: 'all' (wait for all), 'root' (non-roots wait for the root),
        'toroot' (the root waits for all)"""
        s = self._s
        if root is not None:
            self._check_peer(root)
        seq = s.seq[self._rank]
        s.seq[self._rank] += 1
        self._w.step(self._wr)
        slot = s.slots.setdefault(seq, {"op": op, "root": root, "in": {}})
        if slot["op"] != op or slot["root"] != root:
            raise MPIError(
                f"mismatched collectives: {op}(root={root}) "
                f"with {slot['op']}(root={slot['root']})"
            )
        slot["in"][self._rank] = contribution
        n = len(s.members)
        if self._w.sync or leave == "all":
            pred = lambda: len(slot["in"]) == n
        elif leave == "root":
            pred = lambda: root in slot["in"]
        elif leave == "toroot":
            pred = (
                (lambda: len(slot["in"]) == n)
                if self._rank == root
                else (lambda: True)
            )
        self._w.step(self._wr, pred)
        return slot

    def barrier(self):
        self._collective("barrier", None, True, "all")

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        mine = pickle.dumps(obj) if self._rank == root else None
        slot = self._collective("bcast", root, mine, "root")
        return obj if self._rank == root else pickle.loads(slot["in"][root])

    def Bcast(self, buf, root=0):
        buf = _need(_contig(buf), "broadcast")
        mine = buf.tobytes(order="A") if self._rank == root else None
        slot = self._collective("Bcast", root, mine, "root")
        if self._rank != root:
            _fill(buf, slot["in"][root])

    def scatter(self, sendobj=None, root=0):
        mine = None
        if self._rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError("wrong number of items to scatter")
            mine = [pickle.dumps(o) for o in sendobj]
        slot = self._collective("scatter", root, mine, "root")
        return pickle.loads(slot["in"][root][self._rank])

    def gather(self, sendobj=None, root=0):
        slot = self._collective("gather", root, pickle.dumps(sendobj), "toroot")
        if self._rank == root:
            return [pickle.loads(slot["in"][r]) for r in range(self.size)]

    def allgather(self, sendobj=None):
        slot = self._collective("allgather", None, pickle.dumps(sendobj), "all")
        return [pickle.loads(slot["in"][r]) for r in range(self.size)]

    def alltoall(self, sendobj=None):
        mine = [pickle.dumps(o) for o in sendobj]
        slot = self._collective("alltoall", None, mine, "all")
        return [pickle.loads(slot["in"][r][self._rank]) for r in range(self.size)]

    def allreduce(self, sendobj, op=None):
        slot = self._collective("allreduce", None, pickle.dumps(sendobj), "all")
        vals = [pickle.loads(slot["in"][r]) for r in range(self.size)]
        out = vals[0]
        for v in vals[1:]:
            out = op(out, v) if op is not None and not isinstance(op, int) else out + v
        return out

    def _blocks(self, buf, what):
        n = self.size
        if buf.nbytes % n:
            raise MPIError(f"{what} buffer of {buf.nbytes} bytes for {n} ranks")
        return buf.nbytes // n

    def Scatter(self, sendbuf, recvbuf, root=0):
        mine = None
        if self._rank == root:
            sendbuf = _need(_contig(sendbuf), "send")
            b = self._blocks(sendbuf, "send")
            raw = sendbuf.tobytes(order="A")
            mine = [raw[i * b : (i + 1) * b] for i in range(self.size)]
        if recvbuf is not None or self._rank != root:
            recvbuf = _need(_contig(recvbuf), "receive")
        slot = self._collective("Scatter", root, mine, "root")
        if recvbuf is not None:
            _fill(recvbuf, slot["in"][root][self._rank])

    def Gather(self, sendbuf, recvbuf=None, root=0):
        sendbuf = _need(_contig(sendbuf), "send")
        if self._rank == root:
            recvbuf = _need(_contig(recvbuf), "receive")
            self._blocks(recvbuf, "receive")
        slot = self._collective("Gather", root, sendbuf.tobytes(order="A"), "toroot")
        if self._rank == root:
            b = self._blocks(recvbuf, "receive")
            view = _bytes_view(recvbuf)
            for r in range(self.size):
                data = slot["in"][r]
                if len(data) > b:
                    raise MPIError(f"message truncated: {len(data)} > {b} bytes")
                view[r * b : r * b + len(data)] = np.frombuffer(data, dtype=np.uint8)

    def Allgather(self, sendbuf, recvbuf):
        sendbuf = _need(_contig(sendbuf), "send")
        recvbuf = _need(_contig(recvbuf), "receive")
        b = self._blocks(recvbuf, "receive")
        slot = self._collective("Allgather", None, sendbuf.tobytes(order="A"), "all")
        view = _bytes_view(recvbuf)
        for r in range(self.size):
            data = slot["in"][r]
            if len(data) > b:
                raise MPIError("message truncated")
            view[r * b : r * b + len(data)] = np.frombuffer(data, dtype=np.uint8)

    def Split(self, color=0, key=0):
        slot = self._collective("Split", None, (color, key), "all")
        if color is None or color < 0:
            return None
        if "comms" not in slot:
            slot["comms"] = {}
        if color not in slot["comms"]:
            order = sorted(
                (k, r) for r, (c, k) in slot["in"].items() if c == color
            )
            ranks = [r for _, r in order]
            slot["comms"][color] = (
                _CommState(self._w, [self._s.members[r] for r in ranks]),
                ranks,
            )
        state, ranks = slot["comms"][color]
        return Comm(state, ranks.index(self._rank))

    def Dup(self, info=None):
        return self.Split(0, self._rank)

    Clone = Dup

    def Free(self):
        pass
