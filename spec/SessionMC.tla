--------------------------------- MODULE SessionMC ---------------------------------
(* All histories of operations on two fields of one model, in the small: halo updates
   (begun, and finished later), gathers, scatters, corner fills, nudging one field to the
   other.  Values only move, so every number tells where it came from: whatever happens,
   each point of a field holds a value of the same point of the cube, of this field or of
   the one it is nudged to, halo points included; and a field that nothing is nudged into
   keeps its compute domain.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
H == INSTANCE Halo
P == INSTANCE Transfer
C == INSTANCE Corners
CONSTANTS N, Iface, Depth, Broken
VARIABLES tab, a, g, pend, steps
vars == << tab, a, g, pend, steps >>
Ranks == 0..5
Halo == N
Dim(ax) == [axis |-> ax, iface |-> Iface, origin |-> Halo, extent |-> N + Iface, shape |-> N + Iface + 2*Halo]
Q == << Dim("x"), Dim("y") >>
D == [k \in 1..2 |-> [axis |-> Q[k].axis, iface |-> Iface, cells |-> N]]
S == [kind |-> "cube", layout |-> << 1, 1 >>]
Size == P!Size(Q)
St == P!Strides(Q)
GQ == P!GlobalLayout(S, D)
(* tables that never change: where updates, fills, gathers and scatters take elements from *)
Tables ==
  LET nb == TLCEval(H!Neighbours(1))  st == TLCEval(St)  q == TLCEval(Q)  gq == TLCEval(GQ)  gst == TLCEval(P!Strides(GQ)) IN
  [src |-> TLCEval([k \in 0..(6*Size-1) |-> LET x == H!After("scalar", 1, N, Halo, nb, << q >>, << st >>, k \div Size, 1, k % Size) IN x[1]*Size + x[3]]),
   inner |-> TLCEval([e \in 0..(Size-1) |-> P!Inside(q, P!Coord(q, st, e))]),
   fill |-> TLCEval([dir \in {"x", "y"} |-> [k \in 0..(Size-1) |-> C!FillSrc(q, st, << 1, 1 >>, 0, dir, Halo, k)]]),
   part |-> TLCEval([e \in 1..P!Size(gq) |-> LET c == P!Coord(gq, gst, e-1) IN << c[1], P!Element(q, st, << c[2], c[3] >>) >>]),
   whole |-> TLCEval([k \in 0..(Size-1) |-> LET c == P!Coord(q, st, k) IN IF P!Inside(q, c) THEN P!Element(gq, gst, << 0 >> \o c) ELSE 0]),
   size |-> Size, per |-> P!Size(gq) \div 6]
Sz == tab.size
IsIn(e) == tab.inner[e]
Updated(f) == [r \in Ranks |-> [k \in 0..(Sz-1) |->
    LET s == IF Broken = "update" /\ IsIn(k) /\ ~IsIn(k-1) THEN tab.src[r*Sz + k - 1] ELSE tab.src[r*Sz + k]
    IN a[f][s \div Sz][s % Sz]]]
Init == /\ tab = Tables
        /\ a = [f \in 1..2 |-> [r \in Ranks |-> [k \in 0..(Size-1) |-> ((f-1)*6 + r)*Size + k]]]
        /\ g = [f \in 1..2 |-> <<>>] /\ pend = {} /\ steps = 0
Count == steps < Depth /\ steps' = steps + 1 /\ UNCHANGED tab
Start(f) == Count /\ f \notin pend /\ pend' = pend \cup {f} /\ UNCHANGED << a, g >>
Wait(f) == Count /\ f \in pend /\ pend' = pend \ {f} /\ a' = [a EXCEPT ![f] = Updated(f)] /\ UNCHANGED g
Gather(f) == /\ Count /\ f \notin pend /\ UNCHANGED << a, pend >>
             /\ g' = [g EXCEPT ![f] = [e \in 1..(6*tab.per) |->
                   LET w == tab.part[e]
                       r == IF Broken = "gather" /\ w[1] < 2 THEN 1 - w[1] ELSE w[1]
                   IN a[f][r][w[2]]]]
Scatter(f) == /\ Count /\ f \notin pend /\ g[f] # <<>> /\ UNCHANGED << g, pend >>
              /\ a' = [a EXCEPT ![f] = [r \in Ranks |-> [k \in 0..(Sz-1) |->
                   IF IsIn(k) THEN g[f][r*tab.per + tab.whole[k] + 1] ELSE a[f][r][k]]]]
Fill(f, dir) == /\ Count /\ f \notin pend /\ UNCHANGED << g, pend >>
                /\ a' = [a EXCEPT ![f] = [r \in Ranks |-> [k \in 0..(Sz-1) |-> a[f][r][tab.fill[dir][k]]]]]
(* nudging with a timescale as long as the step *)
Nudge == /\ Count /\ pend = {} /\ UNCHANGED << g, pend >>
         /\ a' = [a EXCEPT ![1] = [r \in Ranks |-> [k \in 0..(Sz-1) |-> IF IsIn(k) THEN a[2][r][k] ELSE a[1][r][k]]]]
Next == \/ \E f \in 1..2 : Start(f) \/ Wait(f) \/ Gather(f) \/ Scatter(f) \/ (\E d \in {"x", "y"} : Fill(f, d))
        \/ Nudge
Spec == Init /\ [][Next]_vars
(* value v: where it was at the start, and of which field *)
FieldOf(v) == (v \div (6*Sz)) + 1
SamePlace(r, e, v) == LET o == v % (6*Sz)  here == r*Sz + e IN
  IF IsIn(e) THEN o = here
  ELSE \/ o = here                                    \* not yet updated
       \/ tab.src[here] # here /\ o = tab.src[here]
       \/ tab.src[here] = here                         \* corners: whatever filling put there
Inv == /\ \A f \in 1..2, r \in Ranks, e \in 0..(Sz-1) : SamePlace(r, e, a[f][r][e]) /\ (f = 2 => FieldOf(a[f][r][e]) = 2)
       /\ \A f \in 1..2 : g[f] # <<>> =>
            \A e \in 1..(6*tab.per) : g[f][e] % (6*Sz) = tab.part[e][1]*Sz + tab.part[e][2] /\ (f = 2 => FieldOf(g[f][e]) = 2)
(* what a field nothing is nudged into holds in its compute domain *)
Keeps == [][\A r \in Ranks, e \in 0..(Sz-1) : IsIn(e) => a'[2][r][e] = a[2][r][e]]_vars
=================================================================================
