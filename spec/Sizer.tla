---------------------------------- MODULE Sizer ----------------------------------
(* Arrays allocated for a rank of a decomposed tile (C13).  A dimension has an axis
   ("x", "y", "z" or "e": any other), an interface flag and the number of the rank's
   cells; h is the number of halo points.                                           *)
EXTENDS Integers, Sequences
Horizontal(axis) == axis \in {"x", "y"}
Origin(d, h) == IF Horizontal(d.axis) THEN h ELSE 0
Extent(d) == d.cells + d.iface
ArrayLength(d, h) == CASE Horizontal(d.axis) -> d.cells + 1 + 2*h
                       [] d.axis = "z" -> d.cells + 1
                       [] OTHER -> d.cells + d.iface
Before(d, h) == Origin(d, h)
Beyond(d, h) == ArrayLength(d, h) - Origin(d, h) - Extent(d)
Allocated(D, h) == [k \in 1..Len(D) |-> [axis |-> D[k].axis, origin |-> Origin(D[k], h), extent |-> Extent(D[k]), shape |-> ArrayLength(D[k], h)]]
=================================================================================
