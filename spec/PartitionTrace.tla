------------------------------ MODULE PartitionTrace ------------------------------
(* Validates reported slices and extents (C06) against Partition. *)
EXTENDS Partition, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

SliceOK(T, x) ==
  LET D == T.dims
      lo == RankLow(D, T.layout, x.rank)  hi == RankHigh(D, T.layout, x.rank, x.overlap)
  IN /\ Len(x.slices) = Len(D)
     /\ \A k \in 1..Len(D) : x.slices[k] = << lo[k], hi[k] >>
     /\ T.kind = "cube" => x.tile = TileOfRank(x.rank, T.layout)

Tiled(T, e) == IF T.kind = "cube" THEN << 6 >> \o e ELSE e
Bad(T) ==
  LET D == T.dims
      wrong == { k \in 1..Len(T.slices) : ~SliceOK(T, T.slices[k]) }
      w == CHOOSE k \in wrong : \A j \in wrong : k <= j
  IN IF T.error # "" THEN << "slices or extents of a valid layout could not be had", T.error >>
     ELSE IF T.total # (IF T.kind = "cube" THEN 6 ELSE 1) * T.layout[1] * T.layout[2]
          THEN << "wrong number of ranks", T.total >>
     ELSE IF T.rankExtent # RankExtent(D, T.layout) THEN << "wrong extent of a rank", T.rankExtent >>
     ELSE IF T.tileExtent # Tiled(T, TileExtent(D)) THEN << "extent does not round-trip", T.tileExtent >>
     ELSE IF wrong # {} THEN << "wrong slice of a rank",
             [got |-> T.slices[w], low |-> RankLow(D, T.layout, T.slices[w].rank),
              high |-> RankHigh(D, T.layout, T.slices[w].rank, T.slices[w].overlap)] >>
     ELSE <<>>
Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE
  ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> b[2]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
