From 3da0fe8a1ef9bdc41c6a0a4c369093c46ccab3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 01/20] fix: compute the extent of a rank exactly for every
 layout

The float reciprocal of the layout could round down, giving each rank one
cell too few (for example for 49 ranks along an axis).
---
 fv3gfs/util/partitioner.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..7256bfc 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -1,4 +1,5 @@
 from typing import Tuple, Callable, Iterable, Optional, Union, cast, Sequence
+from fractions import Fraction
 import copy
 import abc
 import functools
@@ -734,14 +735,18 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
+    # exact fractions, as a float reciprocal can round down to one cell too few
+    layout_factors = [
+        Fraction(1, int(n_ranks))
+        for n_ranks in utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    ]
     return extent_from_metadata(dims, tile_extent, layout_factors)
 
 
 def extent_from_metadata(
-    dims: Iterable[str], extent: Iterable[int], layout_factors: np.ndarray
+    dims: Iterable[str],
+    extent: Iterable[int],
+    layout_factors: Iterable[Union[int, Fraction]],
 ) -> Tuple[int, ...]:
     return_extents = []
     for dim, rank_extent, layout_factor in zip(dims, extent, layout_factors):
@@ -750,7 +755,7 @@ def extent_from_metadata(
         else:
             add_extent = 0
         tile_extent = (rank_extent + add_extent) * layout_factor - add_extent
-        return_extents.append(int(tile_extent))  # layout_factor is float, need to cast
+        return_extents.append(int(tile_extent))  # layout_factor is a fraction
     return tuple(return_extents)
 
 
-- 
2.43.0


From ba9ff226b0ea3b42daadf2d1be77c8fcb7a935ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 02/20] fix: rotate the right axis when synchronizing 3D vector
 interfaces

The edge data of a quantity whose horizontal dimension is not the first
remaining one was flipped along the wrong axis.
---
 fv3gfs/util/communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..31d8d30 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
-- 
2.43.0


From 143ba1ac94b22ad5d8ed1861c4ebe2bb43758e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 03/20] fix: rotate vectors in place correctly for one and
 three rotations

One rotation read the y component after overwriting it, three rotations
only rebound local names and left the data as it was.
---
 fv3gfs/util/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/boundary.py b/fv3gfs/util/boundary.py
index faf1785..724e981 100644
--- a/fv3gfs/util/boundary.py
+++ b/fv3gfs/util/boundary.py
@@ -20,12 +20,12 @@ class Boundary:
         if self.n_clockwise_rotations % 4 == 0:
             pass
         elif self.n_clockwise_rotations % 4 == 1:
-            y_data[:], x_data[:] = -x_data[:], y_data[:]
+            y_data[:], x_data[:] = -x_data[:], y_data[:].copy()
         elif self.n_clockwise_rotations % 4 == 2:
             y_data[:] = -y_data[:]
             x_data[:] = -x_data[:]
         elif self.n_clockwise_rotations % 4 == 3:
-            y_data, x_data = x_data[:], -y_data[:]
+            y_data[:], x_data[:] = x_data[:].copy(), -y_data[:]
 
     def send_view(self, quantity: Quantity, n_points: int):
         """Return a sliced view of points which should be sent at this boundary.
-- 
2.43.0


From b7248b53278cc14178599ffafbbc1e0f899c4944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 04/20] fix: stop the clock when an exception leaves
 Timer.clock

The clock stayed started, so that it could not be used again.
---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From 7137a28c6719a518c5c460468f15554d697f6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 05/20] fix: always restore the captured stream and close its
 duplicate

The stream stayed redirected after an exception, and every use leaked a
file descriptor.
---
 fv3gfs/util/_capture_stream.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..1eb6bb0 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -17,9 +17,12 @@ def capture_stream(stream):
         # overwrite the streams fileno with a the pipe to be read by the forked
         # process below
         os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
+        try:
+            yield out_stream
+        finally:
+            # restore the original file handle
+            os.dup2(orig_file_handle, stream.fileno())
+            os.close(orig_file_handle)
         # print logging info
         out.seek(0)
         out_stream.write(out.read())
-- 
2.43.0


From 575e792c584a18f04a855252f443c7145915b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 06/20] fix: keep the time of a receiving state when none is
 scattered

scatter_state removed it, although only scattered variables are written.
---
 fv3gfs/util/communicator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 31d8d30..2eda6be 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -259,9 +259,11 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            time = self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
+            if time is not None:
+                recv_state["time"] = time
 
         def scatter_client():
             name_list = self.comm.bcast(None, root=constants.ROOT_RANK)
@@ -270,7 +272,9 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            time = self.comm.bcast(None, root=constants.ROOT_RANK)
+            if time is not None:
+                recv_state["time"] = time
 
         if recv_state is None:
             recv_state = {}
@@ -278,8 +282,6 @@ class Communicator:
             scatter_root()
         else:
             scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
         return recv_state
 
 
-- 
2.43.0


From 4ba5cafac918314b2ab2a1307bb066a80104261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 07/20] fix: gather states in the same order on every rank

Ranks whose state dictionaries differ in order paired up different
variables in the collective calls.
---
 fv3gfs/util/communicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 2eda6be..fa97f5c 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -219,7 +219,8 @@ class Communicator:
         """
         if self.rank == constants.ROOT_RANK and recv_state is None:
             recv_state = {}
-        for name, quantity in send_state.items():
+        # sorted, as the order of a dictionary may differ between ranks
+        for name, quantity in sorted(send_state.items(), key=lambda item: item[0]):
             if name == "time":
                 if self.rank == constants.ROOT_RANK:
                     recv_state["time"] = send_state["time"]
-- 
2.43.0


From a88d2cd6e21ff8fe67020069d34f8b129115526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 08/20] fix: read back states whose units are a unit of time

xarray decoded a quantity with units such as "seconds" or "days" as a
timedelta, and reading the state failed for want of units.
---
 fv3gfs/util/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..7139331 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -46,7 +46,7 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        ds = xr.open_dataset(f, use_cftime=True, decode_timedelta=False)
         for name, value in ds.data_vars.items():
             if name == "time":
                 out_dict[name] = _extract_time(value)
-- 
2.43.0


From 09fd2eba01bd6d029060ac006bc5c9f06ac293b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 09/20] fix: require new data from every rank in each
 DummyComm.Gather

A second gather reused what the other ranks had sent to the first one
instead of raising a ConcurrencyError.
---
 fv3gfs/util/testing/dummy_comm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index d93553e..adfd65e 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -127,6 +127,8 @@ class DummyComm:
                 )
             for i, sendbuf in enumerate(gather_buffer):
                 assign_array(recvbuf[i, :], sendbuf)
+            # the next gather needs new data from every rank
+            self._buffer.pop("gather")
 
     def Send(self, sendbuf, dest, **kwargs):
         ensure_contiguous(sendbuf)
-- 
2.43.0


From 882be7d876f9f7a0a2cda354b5ca30f8c4b87d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 10/20] fix: match messages by tag in DummyComm

Receives took the oldest message from a rank whatever its tag, so waiting
on overlapping halo updates out of order swapped their data.
---
 fv3gfs/util/testing/dummy_comm.py | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index adfd65e..b57fa0c 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -5,6 +5,7 @@ from ..utils import assign_array, ensure_contiguous
 
 logger = logging.getLogger("fv3gfs.util")
 
+ANY_TAG = -1  # as in MPI, the default tag of a receive matches every message
 
 class ConcurrencyError(Exception):
     """Exception to denote that a rank cannot proceed because it is waiting on a
@@ -48,7 +49,7 @@ class DummyComm:
             self._buffer[buffer_type].append(in_value)
         return self._buffer[buffer_type][i_buffer]
 
-    def _get_send_recv(self, from_rank):
+    def _get_send_recv(self, from_rank, tag):
         key = (from_rank, self.rank)
         if "send_recv" not in self._buffer:
             raise ConcurrencyError(
@@ -59,14 +60,20 @@ class DummyComm:
                 f"rank-specific buffer not initialized for send_recv, likely "
                 f"recv called before send from rank {from_rank} to rank {self.rank}"
             )
-        return_value = self._buffer["send_recv"][key].pop(0)
-        return return_value
+        messages = self._buffer["send_recv"][key]
+        for i, (sent_tag, _) in enumerate(messages):
+            if tag in (ANY_TAG, sent_tag):
+                return messages.pop(i)[1]
+        raise ConcurrencyError(
+            f"no message with tag {tag} for send_recv, likely recv called before "
+            f"send from rank {from_rank} to rank {self.rank}"
+        )
 
-    def _put_send_recv(self, value, to_rank):
+    def _put_send_recv(self, value, to_rank, tag):
         key = (self.rank, to_rank)
         self._buffer["send_recv"] = self._buffer.get("send_recv", {})
         self._buffer["send_recv"][key] = self._buffer["send_recv"].get(key, [])
-        self._buffer["send_recv"][key].append(copy.deepcopy(value))
+        self._buffer["send_recv"][key].append((tag, copy.deepcopy(value)))
 
     @property
     def _bcast_buffer(self):
@@ -130,25 +137,25 @@ class DummyComm:
             # the next gather needs new data from every rank
             self._buffer.pop("gather")
 
-    def Send(self, sendbuf, dest, **kwargs):
+    def Send(self, sendbuf, dest, tag=0, **kwargs):
         ensure_contiguous(sendbuf)
-        self._put_send_recv(sendbuf, dest)
+        self._put_send_recv(sendbuf, dest, tag)
 
-    def Isend(self, sendbuf, dest, **kwargs):
-        result = self.Send(sendbuf, dest)
+    def Isend(self, sendbuf, dest, tag=0, **kwargs):
+        result = self.Send(sendbuf, dest, tag=tag)
 
         def send():
             return result
 
         return AsyncResult(send)
 
-    def Recv(self, recvbuf, source, **kwargs):
+    def Recv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
         ensure_contiguous(recvbuf)
-        assign_array(recvbuf, self._get_send_recv(source))
+        assign_array(recvbuf, self._get_send_recv(source, tag))
 
-    def Irecv(self, recvbuf, source, **kwargs):
+    def Irecv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
         def receive():
-            return self.Recv(recvbuf, source)
+            return self.Recv(recvbuf, source, tag=tag)
 
         return AsyncResult(receive)
 
-- 
2.43.0


From 83690afb387c1db767c0924876a706ce49e4f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 11/20] fix: order the dimensions of synchronized vector edges
 as the receiver has them

---
 fv3gfs/util/communicator.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index fa97f5c..7078bff 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -572,6 +572,8 @@ class CubedSphereCommunicator(Communicator):
     def _Isend_vector_shared_boundary(self, x_quantity, y_quantity, tag=0):
         south_boundary = self.boundaries[constants.SOUTH]
         west_boundary = self.boundaries[constants.WEST]
+        south_dims = [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM]
+        west_dims = [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM]
         south_data = x_quantity.view.southwest.sel(
             **{
                 constants.Y_INTERFACE_DIM: 0,
@@ -582,10 +584,19 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
+            south_dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
+        if south_boundary.n_clockwise_rotations % 2 == 1:
+            # received along the other axis, in the dimension order of that edge
+            south_data = x_quantity.np.transpose(
+                south_data,
+                [
+                    south_dims.index(constants.X_DIM if dim == constants.Y_DIM else dim)
+                    for dim in west_dims
+                ],
+            )
         if south_boundary.n_clockwise_rotations in (3, 2):
             south_data = -south_data
         west_data = y_quantity.view.southwest.sel(
@@ -598,10 +609,19 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
+            west_dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
+        if west_boundary.n_clockwise_rotations % 2 == 1:
+            # received along the other axis, in the dimension order of that edge
+            west_data = y_quantity.np.transpose(
+                west_data,
+                [
+                    west_dims.index(constants.Y_DIM if dim == constants.X_DIM else dim)
+                    for dim in south_dims
+                ],
+            )
         if west_boundary.n_clockwise_rotations in (1, 2):
             west_data = -west_data
         send_requests = [
-- 
2.43.0


From e4cab9138f564cd049b65776240794cab8c09aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 12/20] Revert "fix: match messages by tag in DummyComm"

This reverts commit 882be7d876f9f7a0a2cda354b5ca30f8c4b87d8c.
---
 fv3gfs/util/testing/dummy_comm.py | 33 ++++++++++++-------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index b57fa0c..adfd65e 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -5,7 +5,6 @@ from ..utils import assign_array, ensure_contiguous
 
 logger = logging.getLogger("fv3gfs.util")
 
-ANY_TAG = -1  # as in MPI, the default tag of a receive matches every message
 
 class ConcurrencyError(Exception):
     """Exception to denote that a rank cannot proceed because it is waiting on a
@@ -49,7 +48,7 @@ class DummyComm:
             self._buffer[buffer_type].append(in_value)
         return self._buffer[buffer_type][i_buffer]
 
-    def _get_send_recv(self, from_rank, tag):
+    def _get_send_recv(self, from_rank):
         key = (from_rank, self.rank)
         if "send_recv" not in self._buffer:
             raise ConcurrencyError(
@@ -60,20 +59,14 @@ class DummyComm:
                 f"rank-specific buffer not initialized for send_recv, likely "
                 f"recv called before send from rank {from_rank} to rank {self.rank}"
             )
-        messages = self._buffer["send_recv"][key]
-        for i, (sent_tag, _) in enumerate(messages):
-            if tag in (ANY_TAG, sent_tag):
-                return messages.pop(i)[1]
-        raise ConcurrencyError(
-            f"no message with tag {tag} for send_recv, likely recv called before "
-            f"send from rank {from_rank} to rank {self.rank}"
-        )
+        return_value = self._buffer["send_recv"][key].pop(0)
+        return return_value
 
-    def _put_send_recv(self, value, to_rank, tag):
+    def _put_send_recv(self, value, to_rank):
         key = (self.rank, to_rank)
         self._buffer["send_recv"] = self._buffer.get("send_recv", {})
         self._buffer["send_recv"][key] = self._buffer["send_recv"].get(key, [])
-        self._buffer["send_recv"][key].append((tag, copy.deepcopy(value)))
+        self._buffer["send_recv"][key].append(copy.deepcopy(value))
 
     @property
     def _bcast_buffer(self):
@@ -137,25 +130,25 @@ class DummyComm:
             # the next gather needs new data from every rank
             self._buffer.pop("gather")
 
-    def Send(self, sendbuf, dest, tag=0, **kwargs):
+    def Send(self, sendbuf, dest, **kwargs):
         ensure_contiguous(sendbuf)
-        self._put_send_recv(sendbuf, dest, tag)
+        self._put_send_recv(sendbuf, dest)
 
-    def Isend(self, sendbuf, dest, tag=0, **kwargs):
-        result = self.Send(sendbuf, dest, tag=tag)
+    def Isend(self, sendbuf, dest, **kwargs):
+        result = self.Send(sendbuf, dest)
 
         def send():
             return result
 
         return AsyncResult(send)
 
-    def Recv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
+    def Recv(self, recvbuf, source, **kwargs):
         ensure_contiguous(recvbuf)
-        assign_array(recvbuf, self._get_send_recv(source, tag))
+        assign_array(recvbuf, self._get_send_recv(source))
 
-    def Irecv(self, recvbuf, source, tag=ANY_TAG, **kwargs):
+    def Irecv(self, recvbuf, source, **kwargs):
         def receive():
-            return self.Recv(recvbuf, source, tag=tag)
+            return self.Recv(recvbuf, source)
 
         return AsyncResult(receive)
 
-- 
2.43.0


From d0b2c752b48302cd323a7b0d6d575473c0fa2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 13/20] Revert "fix: require new data from every rank in each
 DummyComm.Gather"

This reverts commit 09fd2eba01bd6d029060ac006bc5c9f06ac293b3.
---
 fv3gfs/util/testing/dummy_comm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index adfd65e..d93553e 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -127,8 +127,6 @@ class DummyComm:
                 )
             for i, sendbuf in enumerate(gather_buffer):
                 assign_array(recvbuf[i, :], sendbuf)
-            # the next gather needs new data from every rank
-            self._buffer.pop("gather")
 
     def Send(self, sendbuf, dest, **kwargs):
         ensure_contiguous(sendbuf)
-- 
2.43.0


From a13bc5b8ac4afc5a91fac8cb913ed2828fdd8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 14/20] fix: views reject too many indices and zero-dimensional
 views can be written

---
 fv3gfs/util/quantity.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..79f5d68 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -68,13 +68,18 @@ class BoundaryArrayView:
                 raise IndexError("more than one index given for a zero-dimension array")
             elif isinstance(index, slice) and index != slice(None, None, None):
                 raise IndexError("cannot slice a zero-dimension array")
+            elif isinstance(index, (int, np.integer)):
+                raise IndexError("cannot index a zero-dimension array")
             else:
                 return self._data  # array[()] does not return an ndarray
         else:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_array_index(index)] = value
+        if len(self._origin) == 0:
+            self[index][()] = value
+        else:
+            self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
         if isinstance(index, list):
@@ -167,13 +172,18 @@ class BoundedArrayView:
                 raise IndexError("more than one index given for a zero-dimension array")
             elif isinstance(index, slice) and index != slice(None, None, None):
                 raise IndexError("cannot slice a zero-dimension array")
+            elif isinstance(index, (int, np.integer)):
+                raise IndexError("cannot index a zero-dimension array")
             else:
                 return self._data  # array[()] does not return an ndarray
         else:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_compute_index(index)] = value
+        if len(self.origin) == 0:
+            self[index][()] = value
+        else:
+            self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
         if not isinstance(index, (tuple, list)):
@@ -181,7 +191,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From 2066cdd4a6d54359ed9fa33c7ab2f3225ffcaab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 15/20] fix: monitor refuses inconsistent dims before resizing
 the stored array

---
 fv3gfs/util/zarr_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..acc558f 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -165,13 +165,13 @@ class _ZarrVariableWriter:
             self._init_zarr(quantity)
 
         if self.i_time >= self.array.shape[0] and self.rank == 0:
+            self._ensure_compatible_attrs(quantity)
             new_shape = list(
                 self._prepend_shape
                 + self._partitioner.tile.global_extent(quantity.metadata)
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
-- 
2.43.0


From 92c2d75a487fc4607e2a06fd4ae5dcd86e25a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 16/20] fix: read back states with units like those of an
 encoded time

Only the state's own time is decoded now.
---
 fv3gfs/util/_xarray.py | 4 ++++
 fv3gfs/util/io.py      | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..199226d 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,10 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_cf(*args, **kwargs):
+    return xr.decode_cf(*args, **kwargs)
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 7139331..f84188d 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -46,10 +46,12 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True, decode_timedelta=False)
+        # only the state's time is to be decoded, not quantities with units of time
+        ds = xr.open_dataset(f, decode_times=False)
         for name, value in ds.data_vars.items():
             if name == "time":
-                out_dict[name] = _extract_time(value)
+                time_ds = xr.decode_cf(ds[["time"]], use_cftime=True)
+                out_dict[name] = _extract_time(time_ds["time"])
             else:
                 out_dict[name] = Quantity.from_data_array(value)
     return out_dict
-- 
2.43.0


From 337935e7b09e182ed9f9c8c672358833bfd54ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 17/20] fix: Quantity.values made the data of a
 zero-dimensional quantity read-only

---
 fv3gfs/util/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 79f5d68..a1f6680 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -452,7 +452,8 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        # a new array object, as view[:] is self.data if there are no dimensions
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0


From 8812b8dc9d1662cf0a65142acd9e7149ab836611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:36 +0000
Subject: [PATCH 18/20] fix: write states to remote files, which can only be
 written in order

---
 fv3gfs/util/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index f84188d..faeca45 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -15,9 +15,10 @@ def write_state(state: dict, filename: str) -> None:
     """
     if "time" not in state:
         raise ValueError('state must include a value for "time"')
-    ds = xr.to_dataset(state)
+    # remote files can only be written in order, which to_netcdf does not do
+    content = xr.to_dataset(state).to_netcdf()
     with filesystem.open(filename, "wb") as f:
-        ds.to_netcdf(f)
+        f.write(content)
 
 
 def _extract_time(value: xr.DataArray) -> cftime.datetime:
-- 
2.43.0


From 441ea12b872501ac7f73dbfebbdba1fff7c6aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:49 +0000
Subject: [PATCH 19/20] fix: DummyComm.Split joins the ranks of one color

Each rank kept the communicators of its splits to itself, so that every
rank was rank 0 of 1 in them, and rank 1 of 2 when it split again.
---
 fv3gfs/util/testing/dummy_comm.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index d93553e..c8708e1 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -27,8 +27,6 @@ class DummyComm:
         self.total_ranks = total_ranks
         self._buffer = buffer_dict
         self._i_buffer = {}
-        self._split_comms = {}
-        self._split_buffers = {}
 
     def __repr__(self):
         return f"DummyComm(rank={self.rank}, total_ranks={self.total_ranks})"
@@ -153,14 +151,17 @@ class DummyComm:
     def Split(self, color, key):
         # key argument is ignored, assumes we're calling the ranks from least to
         # greatest when mocking Split
-        self._split_comms[color] = self._split_comms.get(color, [])
-        self._split_buffers[color] = self._split_buffers.get(color, {})
-        rank = len(self._split_comms[color])
+        # the ranks share each split through the buffer, and count their own calls
+        i_split = self._i_buffer.get("split", 0)
+        self._i_buffer["split"] = i_split + 1
+        splits = self._buffer.setdefault("split", {}).setdefault(i_split, {})
+        comms, buffer_dict = splits.setdefault(color, ([], {}))
+        rank = len(comms)
         total_ranks = rank + 1
         new_comm = DummyComm(
-            rank=rank, total_ranks=total_ranks, buffer_dict=self._split_buffers[color]
+            rank=rank, total_ranks=total_ranks, buffer_dict=buffer_dict
         )
-        for comm in self._split_comms[color]:
+        for comm in comms:
             comm.total_ranks = total_ranks
-        self._split_comms[color].append(new_comm)
+        comms.append(new_comm)
         return new_comm
-- 
2.43.0


From e7fb9d8b9685b2489519620b458ef0aa0c5a1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:58 +0000
Subject: [PATCH 20/20] Revert "fix: DummyComm.Split joins the ranks of one
 color"

This reverts commit 441ea12b872501ac7f73dbfebbdba1fff7c6aeba.
---
 fv3gfs/util/testing/dummy_comm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/fv3gfs/util/testing/dummy_comm.py b/fv3gfs/util/testing/dummy_comm.py
index c8708e1..d93553e 100644
--- a/fv3gfs/util/testing/dummy_comm.py
+++ b/fv3gfs/util/testing/dummy_comm.py
@@ -27,6 +27,8 @@ class DummyComm:
         self.total_ranks = total_ranks
         self._buffer = buffer_dict
         self._i_buffer = {}
+        self._split_comms = {}
+        self._split_buffers = {}
 
     def __repr__(self):
         return f"DummyComm(rank={self.rank}, total_ranks={self.total_ranks})"
@@ -151,17 +153,14 @@ class DummyComm:
     def Split(self, color, key):
         # key argument is ignored, assumes we're calling the ranks from least to
         # greatest when mocking Split
-        # the ranks share each split through the buffer, and count their own calls
-        i_split = self._i_buffer.get("split", 0)
-        self._i_buffer["split"] = i_split + 1
-        splits = self._buffer.setdefault("split", {}).setdefault(i_split, {})
-        comms, buffer_dict = splits.setdefault(color, ([], {}))
-        rank = len(comms)
+        self._split_comms[color] = self._split_comms.get(color, [])
+        self._split_buffers[color] = self._split_buffers.get(color, {})
+        rank = len(self._split_comms[color])
         total_ranks = rank + 1
         new_comm = DummyComm(
-            rank=rank, total_ranks=total_ranks, buffer_dict=buffer_dict
+            rank=rank, total_ranks=total_ranks, buffer_dict=self._split_buffers[color]
         )
-        for comm in comms:
+        for comm in self._split_comms[color]:
             comm.total_ranks = total_ranks
-        comms.append(new_comm)
+        self._split_comms[color].append(new_comm)
         return new_comm
-- 
2.43.0

