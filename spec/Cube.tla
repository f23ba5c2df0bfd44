---------------------------------- MODULE Cube ----------------------------------
(* The geometry of a cubed sphere, from first principles.

   Six square faces of the cube [-1,1]^3, numbered as the tiles of the model.  A
   face has an outward normal and two axes ex, ey in its plane with ex x ey equal
   to the normal; tile indices grow along ex (x) and ey (y).  Everything the
   properties say about neighbours, halos and rotated vectors is derived from this
   table by folding a plane over an edge of the cube; nothing below knows about the
   rules with which the implementation finds neighbours.

   Lengths are integers: a face of N cells along an edge spans the interval [0,2N]
   in doubled coordinates, so that cell centres are odd and interfaces are even.  *)
EXTENDS Integers, Sequences

Tiles == 0..5

Vec(x, y, z) == <<x, y, z>>
Neg(v) == <<-v[1], -v[2], -v[3]>>
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1] >>

(* axes of the tiles in space *)
EX == [t \in Tiles |-> CASE t = 0 -> Vec(0,1,0)  [] t = 1 -> Vec(-1,0,0)
                         [] t = 2 -> Vec(-1,0,0) [] t = 3 -> Vec(0,0,-1)
                         [] t = 4 -> Vec(0,0,-1) [] t = 5 -> Vec(0,1,0)]
EY == [t \in Tiles |-> CASE t = 0 -> Vec(0,0,1)  [] t = 1 -> Vec(0,0,1)
                         [] t = 2 -> Vec(0,-1,0) [] t = 3 -> Vec(0,-1,0)
                         [] t = 4 -> Vec(1,0,0)  [] t = 5 -> Vec(1,0,0)]
Normal == [t \in Tiles |-> Cross(EX[t], EY[t])]

TileFacing(v) == CHOOSE t \in Tiles : Normal[t] = v

(* The tile across each of the four sides of a tile, and the axes of this tile
   after folding the plane over that side: what was outward from the side becomes
   the direction down the adjacent face (minus the normal).                       *)
Sides == {"W", "E", "S", "N"}
Across == [t \in Tiles |-> [s \in Sides |->
             CASE s = "W" -> TileFacing(Neg(EX[t])) [] s = "E" -> TileFacing(EX[t])
               [] s = "S" -> TileFacing(Neg(EY[t])) [] s = "N" -> TileFacing(EY[t])]]
FoldX == [t \in Tiles |-> [s \in Sides |->
             CASE s = "W" -> Normal[t] [] s = "E" -> Neg(Normal[t]) [] OTHER -> EX[t]]]
FoldY == [t \in Tiles |-> [s \in Sides |->
             CASE s = "S" -> Normal[t] [] s = "N" -> Neg(Normal[t]) [] OTHER -> EY[t]]]

(* Linear part of the change of coordinates over a side: the folded axes of this
   tile expressed in the axes of the tile across it.  Each entry is -1, 0 or 1.   *)
XX == [t \in Tiles |-> [s \in Sides |-> Dot(FoldX[t][s], EX[Across[t][s]])]]
XY == [t \in Tiles |-> [s \in Sides |-> Dot(FoldX[t][s], EY[Across[t][s]])]]
YX == [t \in Tiles |-> [s \in Sides |-> Dot(FoldY[t][s], EX[Across[t][s]])]]
YY == [t \in Tiles |-> [s \in Sides |-> Dot(FoldY[t][s], EY[Across[t][s]])]]

(* Number of clockwise quarter turns from the (folded) axes here to the axes there:
   after n of them, the y axis there points along y, x, -y, -x here.              *)
Turns == [t \in Tiles |-> [s \in Sides |->
            LET u == Across[t][s] IN
            CASE EY[u] = FoldY[t][s] -> 0 [] EY[u] = FoldX[t][s] -> 1
              [] EY[u] = Neg(FoldY[t][s]) -> 2 [] EY[u] = Neg(FoldX[t][s]) -> 3]]

(* The side of the face [0,2N]^2 on which a doubled point lies outside, "I" if it
   lies inside (or on an edge), "C" if it is outside two sides: beyond a vertex of
   the cube there is nothing.                                                     *)
Outside(N, a, b) ==
  LET ox == a < 0 \/ a > 2*N
      oy == b < 0 \/ b > 2*N
  IN IF ox /\ oy THEN "C"
     ELSE IF a < 0 THEN "W" ELSE IF a > 2*N THEN "E"
     ELSE IF b < 0 THEN "S" ELSE IF b > 2*N THEN "N" ELSE "I"

(* The doubled point (a, b) of tile t, outside side s, in the coordinates of the
   tile across: put the point in space, folded down over the edge, and project.   *)
Point(N, t, s, a, b) ==
  LET x == a - N   y == b - N          \* relative to the centre of the face
      n == Normal[t]  ex == EX[t]  ey == EY[t]
      \* distance beyond the edge, measured down the neighbouring face
      d == CASE s = "W" -> -a [] s = "E" -> a - 2*N [] s = "S" -> -b [] s = "N" -> b - 2*N
      cx == CASE s = "W" -> -N [] s = "E" -> N [] OTHER -> x
      cy == CASE s = "S" -> -N [] s = "N" -> N [] OTHER -> y
      P == [k \in 1..3 |-> (N - d)*n[k] + cx*ex[k] + cy*ey[k]]
      u == Across[t][s]
  IN << u, Dot(P, EX[u]) + N, Dot(P, EY[u]) + N >>

(* A point of tile t in doubled coordinates, inside or beyond one side, as a point
   of the face it really is on.  Not defined for Outside = "C".                    *)
Resolve(N, t, a, b) ==
  LET s == Outside(N, a, b) IN IF s = "I" THEN <<t, a, b>> ELSE Point(N, t, s, a, b)

-------------------------------------------------------------------------------
(* Ranks: each tile is divided into L x L blocks, numbered row by row from the low
   corner; block (j, i) has i along x.                                            *)
RankOf(L, t, j, i) == t*L*L + j*L + i
TileOf(L, r) == r \div (L*L)
RowOf(L, r) == (r % (L*L)) \div L
ColOf(L, r) == r % L

(* The eight directions in which a rank may have a neighbour, numbered as in the
   interface of the package.                                                       *)
Dirs == << <<-1,0>>, <<1,0>>, <<0,1>>, <<0,-1>>, <<-1,1>>, <<1,1>>, <<-1,-1>>, <<1,-1>> >>
DirX(b) == Dirs[b+1][1]
DirY(b) == Dirs[b+1][2]
BoundaryTypes == 0..7

(* The side of the face that is crossed when stepping from rank r by (dx, dy)
   blocks: "I" when staying on the tile, "C" when two sides are crossed.           *)
Crossed(L, r, dx, dy) ==
  LET i == ColOf(L, r) + dx   j == RowOf(L, r) + dy
  IN Outside(L, 2*i + 1, 2*j + 1)

(* The rank whose block lies there, by resolving the centre of the block.          *)
NeighbourRank(L, r, dx, dy) ==
  LET p == Resolve(L, TileOf(L, r), 2*(ColOf(L, r) + dx) + 1, 2*(RowOf(L, r) + dy) + 1)
  IN RankOf(L, p[1], (p[3] - 1) \div 2, (p[2] - 1) \div 2)

NeighbourTurns(L, r, dx, dy) ==
  LET s == Crossed(L, r, dx, dy) IN IF s = "I" THEN 0 ELSE Turns[TileOf(L, r)][s]

HasNeighbour(L, r, dx, dy) == Crossed(L, r, dx, dy) # "C"

(* A tile on its own is doubly periodic; its layout may be any LY x LX. *)
PeriodicRank(LY, LX, r, dx, dy) ==
  LET j == ((r \div LX) + dy) % LY   i == ((r % LX) + dx) % LX   IN j*LX + i
=================================================================================
