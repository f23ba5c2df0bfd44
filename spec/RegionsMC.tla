-------------------------------- MODULE RegionsMC --------------------------------
(* Exhaustive checks of the regions, on small arrays: how they lie to the compute domain
   and to each other, and that what a rank receives in is, by the geometry of the cube
   (Halo), exactly what its neighbour sends over the opposite boundary.              *)
EXTENDS Halo
CONSTANTS MaxL, MaxN, Broken
R == INSTANCE Regions
VARIABLES L, n, fx, fy, w, r, b
vars == << L, n, fx, fy, w, r, b >>
Init == /\ L \in 1..MaxL /\ n \in 1..MaxN /\ fx \in 0..1 /\ fy \in 0..1 /\ w \in 1..n
        /\ r \in 0..(6*L*L - 1) /\ b \in BoundaryTypes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
H == n + 1      \* points around the compute domain
Dim(ax, f) == [axis |-> ax, iface |-> f, origin |-> H, extent |-> n + f, shape |-> 2*H + n + f]
Quantity == << Dim("x", fx), Dim("y", fy) >>
Points == (0..(2*H + n + fx - 1)) \X (0..(2*H + n + fy - 1))
InS(Q, c, dx, dy) ==
  IF Broken = "shared" THEN R!In([k \in 1..2 |-> [Q[k] EXCEPT !.iface = 0]], c, dx, dy, w, TRUE)
  ELSE R!In(Q, c, dx, dy, w, TRUE)
InR(Q, c, dx, dy) ==
  IF Broken = "narrow" THEN R!In(Q, c, dx, dy, w, FALSE) /\ \A k \in 1..2 : c[k] # H - w
  ELSE R!In(Q, c, dx, dy, w, FALSE)
dx == DirX(b)  dy == DirY(b)
Sent(bb, Q) == { c \in Points : InS(Q, c, DirX(bb), DirY(bb)) }
Received == { c \in Points : InR(Quantity, c, dx, dy) }
Place == /\ \A c \in Sent(b, Quantity) : R!InDomain(Quantity, c)
         /\ \A c \in Received : ~R!InDomain(Quantity, c)
         /\ Received # {} /\ Sent(b, Quantity) # {}
(* the regions of all directions in which a halo of this width is received are disjoint
   and fill it                                                                       *)
Tiling == LET halo == { c \in Points : (\A k \in 1..2 : c[k] >= H - w /\ c[k] < R!Top(Quantity[k]) + w)
                                      /\ ~R!InDomain(Quantity, c) }
              at(c) == { d \in BoundaryTypes : InR(Quantity, c, DirX(d), DirY(d)) }
          IN b = 0 /\ r = 0 => \A c \in halo : \E d \in BoundaryTypes : at(c) = {d}
(* over an edge with an odd number of turns x and y change places: both ranks' arrays have
   the same kind of points along both, or the neighbour's are those of the other component *)
Matching ==
  HasNeighbour(L, r, dx, dy) =>
    LET to == NeighbourRank(L, r, dx, dy)
        s == Crossed(L, r, dx, dy)
        swap == NeighbourTurns(L, r, dx, dy) % 2 = 1
        There2 == IF swap THEN << Dim("x", fy), Dim("y", fx) >> ELSE Quantity
        images == { LET q == There(L, n, r, s, to, c[1] - H, c[2] - H, fx, fy) IN << q[1] + H, q[2] + H >> : c \in Received }
    IN (fx = fy \/ ~swap) =>
       \E d \in BoundaryTypes : /\ HasNeighbour(L, to, DirX(d), DirY(d))
                                /\ NeighbourRank(L, to, DirX(d), DirY(d)) = r
                                /\ images = Sent(d, There2)
Inv == Place /\ Tiling /\ Matching
=================================================================================
