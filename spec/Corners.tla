----------------------------------- MODULE Corners -----------------------------------
(* Filling the corners of a tile for stencils along x or y (C11).

   Near a corner of the tile, count points outwards from the compute domain (0 is the
   first halo point) and inwards (0 is the first inside).  A stencil along x in the halo
   beyond the y edge leaves that neighbour over the cube edge that starts at the vertex,
   and meets the neighbour beyond the x edge: its corner point (u, v) is the halo point
   v outwards in x and u inwards in y; likewise with x and y exchanged.             *)
EXTENDS Integers, Sequences, TLC

OutIx(side, e, k) == IF side = -1 THEN -1 - k ELSE e + k
InIx(side, e, k) == IF side = -1 THEN k ELSE e - 1 - k
(* how far a position lies outwards; negative if it does not *)
OutOf(side, e, c) == IF side = -1 THEN -1 - c ELSE c - e
(* source of the corner point u, v outwards in x and y: position << x, y >> *)
CornerSrc(dir, sx, sy, ex, ey, fx, fy, u, v) ==
  IF dir = "x" THEN << OutIx(sx, ex, v), InIx(sy, ey, u + fy) >>
  ELSE << InIx(sx, ex, v + fx), OutIx(sy, ey, u) >>

OnSide(layout, rank, ax, side) ==
  LET w == rank % (layout[1]*layout[2])
      k == IF ax = "x" THEN w % layout[2] ELSE w \div layout[2]
      n == IF ax = "x" THEN layout[2] ELSE layout[1]
  IN IF side = -1 THEN k = 0 ELSE k = n - 1

RECURSIVE ProdFrom(_, _)
ProdFrom(Q, k) == IF k > Len(Q) THEN 1 ELSE Q[k].shape * ProdFrom(Q, k+1)
(* element e (from 0) after filling: the element it now has the value of *)
FillSrc(Q, st, layout, rank, dir, n, e) ==
  LET c == [k \in 1..Len(Q) |-> ((e \div st[k]) % Q[k].shape) - Q[k].origin]
      inside == \A k \in 3..Len(Q) : c[k] >= 0 /\ c[k] < Q[k].extent
      sx == IF c[1] < 0 THEN -1 ELSE IF c[1] >= Q[1].extent THEN 1 ELSE 0
      sy == IF c[2] < 0 THEN -1 ELSE IF c[2] >= Q[2].extent THEN 1 ELSE 0
  IN IF ~inside \/ sx = 0 \/ sy = 0 THEN e
     ELSE IF ~OnSide(layout, rank, "x", sx) \/ ~OnSide(layout, rank, "y", sy) THEN e
     ELSE LET u == OutOf(sx, Q[1].extent, c[1])  v == OutOf(sy, Q[2].extent, c[2]) IN
          IF u >= n \/ v >= n THEN e
          ELSE LET s == CornerSrc(dir, sx, sy, Q[1].extent, Q[2].extent, Q[1].iface, Q[2].iface, u, v)
               IN e + (s[1] - c[1])*st[1] + (s[2] - c[2])*st[2]
Filled(Q, layout, rank, dir, n, d) ==
  LET st == TLCEval([k \in 1..Len(Q) |-> ProdFrom(Q, k+1)]) IN
  [e \in 1..Len(d) |-> d[FillSrc(Q, st, layout, rank, dir, n, e-1) + 1]]
=================================================================================
