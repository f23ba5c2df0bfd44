---------------------------------- MODULE Halo ----------------------------------
(* What halo updates and interface synchronisations do to the arrays of all ranks.

   An update is [kind |-> "scalar" | "vector" | "sync", npts |-> n, qs |-> ...].
   Src gives, for one array element of one rank, the element of another rank (and,
   for vectors, the component and sign) whose value it has after the update, or <<>>
   if the element keeps its value.  It is derived from the geometry in Cube only. *)
EXTENDS Cube, TLC

RECURSIVE ProdFrom(_, _)
ProdFrom(s, d) == IF d > Len(s) THEN 1 ELSE s[d] * ProdFrom(s, d+1)

(* A quantity's layout: a sequence of dimensions [axis |-> "x"|"y"|"o", iface |-> 0|1,
   origin, extent, shape].                                                         *)
Axis(Q, ax) == CHOOSE d \in 1..Len(Q) : Q[d].axis = ax
Shape(Q) == [d \in 1..Len(Q) |-> Q[d].shape]
Size(Q) == ProdFrom(Shape(Q), 1)
Strides(Q) == [d \in 1..Len(Q) |-> ProdFrom(Shape(Q), d+1)]
(* position of flat element k relative to the compute domain *)
Local(Q, st, k) == [d \in 1..Len(Q) |-> ((k \div st[d]) % Q[d].shape) - Q[d].origin]
Flat(Q, st, c) == LET RECURSIVE F(_) F(d) == IF d > Len(Q) THEN 0
                                             ELSE (c[d] + Q[d].origin)*st[d] + F(d+1)
                  IN F(1)

Region(c, e) == IF c < 0 THEN -1 ELSE IF c >= e THEN 1 ELSE 0

(* Component `comp` ("x" or "y") along this rank's own axis, after crossing side s of
   tile t: which component of the neighbour it is, and with which sign.            *)
Component(t, s, comp) ==
  IF s = "I" THEN << comp, 1 >>
  ELSE LET ax == IF comp = "x" THEN XX[t][s] ELSE YX[t][s]
           ay == IF comp = "x" THEN XY[t][s] ELSE YY[t][s]
       IN IF ax # 0 THEN << "x", ax >> ELSE << "y", ay >>

(* A point of rank r given by its local position, seen from the rank `to` that lies
   across side s: local position there.                                            *)
There(L, n, r, s, to, cx, cy, fx, fy) ==
  LET t == TileOf(L, r)
      a == 2*(ColOf(L, r)*n + cx) + 1 - fx
      b == 2*(RowOf(L, r)*n + cy) + 1 - fy
      p == IF s = "I" THEN << t, a, b >> ELSE Point(L*n, t, s, a, b)
  IN << (p[2] \div 2) - ColOf(L, to)*n, (p[3] \div 2) - RowOf(L, to)*n >>

(* Source of the point (cx, cy) of component comp of rank r in a halo update: << rank,
   component, sign, x, y >>, or <<>>.  nb is the table of neighbours (below).       *)
HaloSrc(L, n, nb, r, cx, cy, fx, fy, npts, comp) ==
  LET ex == n + fx   ey == n + fy
      dx == Region(cx, ex)   dy == Region(cy, ey)
  IN IF (dx = 0 /\ dy = 0) \/ cx < -npts \/ cy < -npts \/ cx >= ex+npts \/ cy >= ey+npts
     THEN <<>>
     ELSE LET x == nb[r][dx][dy] IN
          IF x.s = "C" THEN <<>>
          ELSE LET w == Component(TileOf(L, r), x.s, comp)
                   q == There(L, n, r, x.s, x.to, cx, cy, fx, fy)
               IN << x.to, w[1], w[2], q[1], q[2] >>

(* Synchronising a C-grid vector: the last row of the x-component (which lives on
   y interfaces) comes from across the north edge, the last column of the y-component
   from across the east edge.                                                      *)
SyncSrc(L, n, nb, r, cx, cy, fx, fy, comp) ==
  LET dx == IF comp = "y" /\ cx = n THEN 1 ELSE 0
      dy == IF comp = "x" /\ cy = n THEN 1 ELSE 0
  IN IF (dx = 0 /\ dy = 0) \/ cx < 0 \/ cx >= n + fx \/ cy < 0 \/ cy >= n + fy
     THEN <<>>
     ELSE LET x == nb[r][dx][dy]
              w == Component(TileOf(L, r), x.s, comp)
              q == There(L, n, r, x.s, x.to, cx, cy, fx, fy)
          IN << x.to, w[1], w[2], q[1], q[2] >>

(* neighbours of all ranks, by direction *)
Neighbours(L) ==
  [r \in 0..(6*L*L - 1) |-> [dx \in -1..1 |-> [dy \in -1..1 |->
     LET s == Crossed(L, r, dx, dy) IN
     [s |-> s, to |-> IF s = "C" THEN -1 ELSE NeighbourRank(L, r, dx, dy)]]]]

Src(kind, L, n, nb, r, cx, cy, fx, fy, npts, comp) ==
  IF kind = "sync" THEN SyncSrc(L, n, nb, r, cx, cy, fx, fy, comp)
  ELSE LET s == HaloSrc(L, n, nb, r, cx, cy, fx, fy, npts, IF kind = "vector" THEN comp ELSE "x")
       IN IF kind = "vector" \/ s = <<>> THEN s ELSE << s[1], comp, 1, s[4], s[5] >>

(* Quantities of an update by component: a scalar's only quantity is component "x". *)
CompName(q) == IF q = 1 THEN "x" ELSE "y"
CompIndex(c) == IF c = "x" THEN 1 ELSE 2

(* What element k of quantity q of rank r holds after the update, as << rank, quantity,
   element, sign >> of the value before; itself with sign 1 if it keeps its value.   *)
After(kind, L, n, npts, nb, qs, st, r, q, k) ==
  LET Q == qs[q]
      c == Local(Q, st[q], k)
      ix == Axis(Q, "x")   iy == Axis(Q, "y")
      inside == \A d \in 1..Len(Q) : Q[d].axis = "o" => c[d] >= 0 /\ c[d] < Q[d].extent
      s == IF inside
           THEN Src(kind, L, n, nb, r, c[ix], c[iy], Q[ix].iface, Q[iy].iface, npts, CompName(q))
           ELSE <<>>
  IN IF s = <<>> THEN << r, q, k, 1 >>
     ELSE LET q2 == CompIndex(s[2])
              Q2 == qs[q2]
              \* the other dimensions correspond by position, relative to the compute domain
              c2 == [d \in 1..Len(Q2) |-> CASE Q2[d].axis = "x" -> s[4]
                                            [] Q2[d].axis = "y" -> s[5] [] OTHER -> c[d]]
          IN << s[1], q2, Flat(Q2, st[q2], c2), s[3] >>

(* The halo around the compute domain of a quantity is at least n points wide. *)
HaloFits(Q, npts) == \A d \in 1..Len(Q) : Q[d].axis # "o" =>
                        Q[d].origin >= npts /\ Q[d].origin + Q[d].extent + npts <= Q[d].shape
=================================================================================
