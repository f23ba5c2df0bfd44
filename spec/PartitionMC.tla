------------------------------- MODULE PartitionMC -------------------------------
(* The division of every axis: exact cover, overlap, extents (C06). *)
EXTENDS Partition, FiniteSets
CONSTANTS MaxP, MaxM
VARIABLES P, m, iface
Init == P \in 1..MaxP /\ m \in 1..MaxM /\ iface \in 0..1
Next == FALSE /\ UNCHANGED <<P, m, iface>>
Spec == Init /\ [][Next]_<<P, m, iface>>
E == P*m
Points == 0..(TilePoints(E, iface) - 1)
ExactCover == \A c \in Points : Cardinality({ i \in 0..(P-1) : Owns(E, P, i, iface, FALSE, c) }) = 1
NothingElse == \A i \in 0..(P-1) : Low(E, P, i) >= 0 /\ High(E, P, i, iface, TRUE) <= TilePoints(E, iface)
OverlapExtent == \A i \in 0..(P-1) : High(E, P, i, iface, TRUE) - Low(E, P, i) = RankPoints(E, P, iface)
OverlapOnlyShared == \A i \in 0..(P-1) : \A c \in Points :
   (Owns(E, P, i, iface, TRUE, c) /\ ~Owns(E, P, i, iface, FALSE, c))
      <=> (iface = 1 /\ i < P-1 /\ c = (i+1)*m)
(* the shared point is the first of the next rank *)
HigherOwns == \A i \in 0..(P-2) : iface = 1 => Owns(E, P, i+1, 1, FALSE, (i+1)*m)
RoundTrip == (RankPoints(E, P, iface) - iface)*P + iface = TilePoints(E, iface)
Inv == ExactCover /\ NothingElse /\ OverlapExtent /\ OverlapOnlyShared /\ HigherOwns /\ RoundTrip
=================================================================================
