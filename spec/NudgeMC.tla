--------------------------------- MODULE NudgeMC ---------------------------------
(* Applying nudges to a state, one variable at a time, while variables may be missing:
   either every tendency is computed before anything is changed, or (broken) not. *)
EXTENDS Nudge, TLC
CONSTANTS Names, Values, A, C, Eager     \* Eager: the broken design that changes while it computes
VARIABLES have, ref, state, before, todo, tend, phase
vars == << have, ref, state, before, todo, tend, phase >>
V == { v * Odd(A) : v \in Values }
Init == /\ have \in SUBSET Names
          /\ \E D \in SUBSET Names : ref \in [D -> V]
          /\ state \in [have -> V] /\ before = state
          /\ todo \in SUBSET Names /\ tend = << >> /\ phase = "compute"
Compute == /\ phase = "compute"
           /\ IF todo = {} THEN phase' = "apply" /\ UNCHANGED << todo, tend, state >>
              ELSE \E n \in todo :
                IF n \notin have \/ n \notin DOMAIN ref THEN phase' = "error" /\ UNCHANGED << todo, tend, state >>
                ELSE /\ tend' = (n :> Tendency(state[n], ref[n], A)) @@ tend /\ todo' = todo \ {n}
                     /\ phase' = "compute"
                     /\ state' = IF Eager THEN [state EXCEPT ![n] = Nudged(state[n], ref[n], A, C)] ELSE state
           /\ UNCHANGED << have, ref, before >>
Apply == /\ phase = "apply" /\ ~Eager
         /\ IF \E n \in DOMAIN tend : TRUE
            THEN \E n \in DOMAIN tend :
                   /\ state' = [state EXCEPT ![n] = Nudged(state[n], ref[n], A, C)]
                   /\ tend' = [m \in DOMAIN tend \ {n} |-> tend[m]] /\ phase' = "apply"
            ELSE phase' = "done" /\ UNCHANGED << state, tend >>
         /\ UNCHANGED << have, ref, before, todo >>
Next == Compute \/ Apply
Spec == Init /\ [][Next]_vars
Atomic == phase = "error" => state = before
(* no overshoot while the step is not longer than the timescale, and a full step arrives *)
Relaxes == phase = "done" => \A n \in have : state[n] = before[n] \/
   LET lo == IF before[n] < ref[n] THEN before[n] ELSE ref[n]   hi == before[n] + ref[n] - lo IN
   C <= A => (lo * Fine(A) <= state[n] /\ state[n] <= hi * Fine(A)) /\ (C = A => state[n] = ref[n] * Fine(A))
=================================================================================
