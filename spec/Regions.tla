--------------------------------- MODULE Regions ---------------------------------
(* The part of a quantity's array that a rank sends over a boundary, and the part in
   which it receives.  A dimension is [axis |-> "x"|"y"|"o", iface |-> 0|1, origin,
   extent, shape]; (dx, dy) is the direction of the boundary.

   What is sent lies in the compute domain, n points wide, next to the edge; on an
   interface dimension the outermost point is shared by both ranks and left out.  What
   is received lies just outside the compute domain, n points wide.  Along dimensions
   that the boundary does not cut across, both span the compute domain.             *)
EXTENDS Integers, Sequences

Towards(d, dx, dy) == CASE d.axis = "x" -> dx [] d.axis = "y" -> dy [] OTHER -> 0
Top(d) == d.origin + d.extent
First(d, dx, dy, n, inner) ==
  LET w == Towards(d, dx, dy) IN
  CASE w = 0 -> d.origin
    [] w = -1 -> IF inner THEN d.origin + d.iface ELSE d.origin - n
    [] w = 1 -> IF inner THEN Top(d) - d.iface - n ELSE Top(d)
Beyond(d, dx, dy, n, inner) == IF Towards(d, dx, dy) = 0 THEN Top(d) ELSE First(d, dx, dy, n, inner) + n

InArray(Q, dx, dy, n, inner) ==
  \A k \in 1..Len(Q) : First(Q[k], dx, dy, n, inner) >= 0 /\ Beyond(Q[k], dx, dy, n, inner) <= Q[k].shape
(* as many points as asked for exist on this rank *)
Enough(Q, dx, dy, n) == \A k \in 1..Len(Q) : Towards(Q[k], dx, dy) # 0 => n <= Q[k].extent - Q[k].iface
RegionShape(Q, dx, dy, n, inner) == [k \in 1..Len(Q) |-> Beyond(Q[k], dx, dy, n, inner) - First(Q[k], dx, dy, n, inner)]
In(Q, c, dx, dy, n, inner) ==
  \A k \in 1..Len(Q) : First(Q[k], dx, dy, n, inner) <= c[k] /\ c[k] < Beyond(Q[k], dx, dy, n, inner)
InDomain(Q, c) == \A k \in 1..Len(Q) : Q[k].origin <= c[k] /\ c[k] < Top(Q[k])
=================================================================================
