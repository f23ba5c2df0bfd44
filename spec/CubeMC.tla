--------------------------------- MODULE CubeMC ---------------------------------
(* Exhaustive checks of the geometry itself: every rank, direction and layout up
   to MaxL is one initial state; the invariants are what a closed cube must satisfy,
   and that the parity rules by which the implementation finds tiles (odd and even
   tiles alternate, offsets of one and two tiles) describe the same cube.          *)
EXTENDS Cube, FiniteSets
CONSTANT MaxL
VARIABLES L, r, b
vars == <<L, r, b>>
Init == /\ L \in 1..MaxL
        /\ r \in 0..(6*L*L - 1)
        /\ b \in BoundaryTypes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

dx == DirX(b)   dy == DirY(b)
me == r
Has == HasNeighbour(L, r, dx, dy)
To == NeighbourRank(L, r, dx, dy)
Turn == NeighbourTurns(L, r, dx, dy)

(* faces are oriented outward and are all different *)
Faces == /\ Cardinality({Normal[t] : t \in Tiles}) = 6
         /\ \A t \in Tiles, s \in Sides : Across[t][s] # t
         /\ \A t \in Tiles : Cardinality({Across[t][s] : s \in Sides}) = 4
(* a fold is a rotation: orientation is preserved *)
Orient == \A t \in Tiles, s \in Sides : XX[t][s]*YY[t][s] - XY[t][s]*YX[t][s] = 1

Valid == Has => (To \in 0..(6*L*L - 1) /\ To # r)
NoneAtVertices == Has <=> ~(/\ dx # 0 /\ dy # 0
                            /\ ColOf(L, r) = (IF dx < 0 THEN 0 ELSE L-1)
                            /\ RowOf(L, r) = (IF dy < 0 THEN 0 ELSE L-1))
(* some direction leads back, with the opposite rotation; along edges exactly one *)
Symmetric == Has => \E c \in BoundaryTypes :
    /\ HasNeighbour(L, To, DirX(c), DirY(c))
    /\ NeighbourRank(L, To, DirX(c), DirY(c)) = r
    /\ (Turn + NeighbourTurns(L, To, DirX(c), DirY(c))) % 4 = 0
    /\ (dx = 0 \/ dy = 0) = (DirX(c) = 0 \/ DirY(c) = 0)
(* two different edge directions never lead to the same rank, for L > 1 *)
Distinct == \A c \in BoundaryTypes : (L > 1 /\ c # b /\ Has /\ HasNeighbour(L, r, DirX(c), DirY(c)))
                => NeighbourRank(L, r, DirX(c), DirY(c)) # To
(* the documented arrangement: odd and even tiles connect by the rules *)
t0 == TileOf(L, r)
Parity ==
  LET even == t0 % 2 = 0  s == Crossed(L, r, dx, dy) IN
  (Has /\ s # "I") =>
    /\ TileOf(L, To) = (t0 + (CASE s = "W" -> IF even THEN 4 ELSE 5
                                [] s = "E" -> IF even THEN 1 ELSE 2
                                [] s = "N" -> IF even THEN 2 ELSE 1
                                [] s = "S" -> IF even THEN 5 ELSE 4)) % 6
    /\ Turn = (CASE s = "W" -> IF even THEN 1 ELSE 0 [] s = "E" -> IF even THEN 0 ELSE 1
                 [] s = "N" -> IF even THEN 3 ELSE 0 [] s = "S" -> IF even THEN 0 ELSE 3)
Inv == Faces /\ Orient /\ Valid /\ NoneAtVertices /\ Symmetric /\ Distinct /\ Parity
=================================================================================
