--------------------------------- MODULE SizerMC ---------------------------------
(* What is allocated suffices for halo updates and scattering, whatever the layout. *)
EXTENDS Sizer
P == INSTANCE Partition
H == INSTANCE Halo
CONSTANTS MaxRanks, MaxCells, MaxHalo, Lean     \* Lean: a broken design without room for the interface
VARIABLES l, m, h
Init == l \in (1..MaxRanks) \X (1..MaxRanks) /\ m \in (1..MaxCells) \X (1..MaxCells) /\ h = 0
Next == h < MaxHalo /\ h' = h + 1 /\ UNCHANGED << l, m >>
Tile(fy, fx) == << [axis |-> "y", iface |-> fy, cells |-> m[1]*l[1]], [axis |-> "x", iface |-> fx, cells |-> m[2]*l[2]] >>
Mine(fy, fx) == << [axis |-> "y", iface |-> fy, cells |-> m[1]], [axis |-> "x", iface |-> fx, cells |-> m[2]] >>
Shape(D) == [k \in 1..2 |-> IF Lean THEN D[k].cells + 2*h ELSE ArrayLength(D[k], h)]
Inv == \A fy, fx \in 0..1 :
  LET D == Mine(fy, fx)  A == Allocated(D, h)  s == Shape(D)
      Q == [k \in 1..2 |-> [axis |-> A[k].axis, iface |-> D[k].iface, origin |-> A[k].origin, extent |-> A[k].extent, shape |-> s[k]]] IN
  \* the extent is the part of the tile a rank is sent
  /\ [k \in 1..2 |-> A[k].extent] = P!RankExtent(Tile(fy, fx), l)
  \* there is room for every halo update of up to h points
  /\ \A n \in 1..h : H!HaloFits(Q, n)
  \* centred and interface arrays are alike
  /\ s = Shape(Mine(0, 0)) /\ \A k \in 1..2 : A[k].origin = h /\ s[k] - h - A[k].extent >= h
Spec == Init /\ [][Next]_<< l, m, h >>
=================================================================================
