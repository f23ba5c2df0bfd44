-------------------------------- MODULE Partition --------------------------------
(* How a tile is divided among ranks.

   A tile has so many cells along x and y; PX x PY ranks share them evenly.  Along an
   axis of E cells divided among P ranks, rank i has the cells i*m .. (i+1)*m - 1 where
   m = E / P, and the interfaces i*m .. (i+1)*m around them.  Where each interface may
   belong to one rank only it is the higher one's, except for the last of the tile.  *)
EXTENDS Integers, Sequences

Cells(E, P) == E \div P
(* points along an axis (iface = 1: interfaces) of the whole tile and of a rank *)
TilePoints(E, iface) == E + iface
RankPoints(E, P, iface) == Cells(E, P) + iface
Low(E, P, i) == i * Cells(E, P)
High(E, P, i, iface, overlap) ==      \* exclusive
  (i + 1)*Cells(E, P) + (IF iface = 1 /\ (overlap \/ i = P - 1) THEN 1 ELSE 0)
Owns(E, P, i, iface, overlap, c) == Low(E, P, i) <= c /\ c < High(E, P, i, iface, overlap)

(* a dimension is [axis |-> "x"|"y"|"o", iface, cells]; a layout <<PY, PX>>, a rank's
   place on its tile <<j, i>> *)
RanksAlong(d, layout) == CASE d.axis = "y" -> layout[1] [] d.axis = "x" -> layout[2] [] OTHER -> 1
PlaceAlong(d, place) == CASE d.axis = "y" -> place[1] [] d.axis = "x" -> place[2] [] OTHER -> 0
Place(r, layout) == << (r % (layout[1]*layout[2])) \div layout[2], r % layout[2] >>
TileOfRank(r, layout) == r \div (layout[1]*layout[2])
TileExtent(D) == [k \in 1..Len(D) |-> TilePoints(D[k].cells, D[k].iface)]
RankExtent(D, layout) == [k \in 1..Len(D) |-> RankPoints(D[k].cells, RanksAlong(D[k], layout), D[k].iface)]
RankLow(D, layout, r) ==
  [k \in 1..Len(D) |-> Low(D[k].cells, RanksAlong(D[k], layout), PlaceAlong(D[k], Place(r, layout)))]
RankHigh(D, layout, r, overlap) ==
  [k \in 1..Len(D) |-> High(D[k].cells, RanksAlong(D[k], layout), PlaceAlong(D[k], Place(r, layout)),
                            D[k].iface, overlap)]
=================================================================================
