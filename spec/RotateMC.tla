---------------------------------- MODULE RotateMC ----------------------------------
(* Group laws, and agreement with the geometry of the cube. *)
EXTENDS Rotate
C == INSTANCE Cube
H == INSTANCE Halo
CONSTANTS MaxLen, Flip
VARIABLES A, m, n
Kinds == { <<"y","x">>, <<"x","y">>, <<"o","y","x">>, <<"x","o","y">>, <<"x">>, <<"y","o">>, <<"o">> }
Ramp(s) == [e \in 1..ProdFrom(s, 1) |-> e]
Init == /\ \E k \in Kinds : \E s \in [1..Len(k) -> 1..MaxLen] : A = [axes |-> k, shape |-> s, d |-> Ramp(s)]
        /\ m \in -4..5 /\ n \in {-1, 1, 2, 3}
Laws ==
  LET B == [A EXCEPT !.d = [e \in 1..Len(A.d) |-> 100 + e]]  V == << A, B >>
      f(k) == IF Flip THEN -k ELSE k IN
  /\ Turned(Turned(A, m), n) = Turned(A, m + n)
  /\ Turned(A, 4) = A /\ Turned(A, 0) = A
  /\ TurnedVector(TurnedVector(V, m), n) = TurnedVector(V, m + n)
  /\ TurnedVector(V, 4) = V
  /\ InPlace(InPlace(V, m), n) = InPlace(V, m + n)
  /\ InPlace(InPlace(V, m), -m) = V
  \* components of the vector across an edge in this rank's axes: turn them clockwise as
  \* often as the axes turn clockwise from here to there
  /\ \A t \in C!Tiles, s \in C!Sides :
       LET c == Comps(f(C!Turns[t][s]))
           name(q) == << IF q[1] = 1 THEN "x" ELSE "y", q[2] >>
       IN H!Component(t, s, "x") = name(c[1]) /\ H!Component(t, s, "y") = name(c[2])
Spec == Init /\ [][UNCHANGED << A, m, n >>]_<< A, m, n >>
=================================================================================
