---------------------------------- MODULE Nudge ----------------------------------
(* Relaxing the variables of a state towards a reference.  Times are counted in 64ths of
   a second; what is divided is counted in units of 1/Fine(A), A being the timescale, so
   that everything is an integer. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Odd(_)
Odd(a) == IF a % 2 = 0 THEN Odd(a \div 2) ELSE a
Fine(A) == A \div Odd(A)
(* reference minus state is a multiple of Odd(A), so the tendency per second times Fine(A) is whole *)
Tendency(s, r, A) == ((r - s) \div Odd(A)) * 64
Nudged(s, r, A, C) == s * Fine(A) + ((r - s) \div Odd(A)) * C
Needed(ts) == { ts[k].name : k \in 1..Len(ts) }
Refused(ts, have, ref) == ~(Needed(ts) \subseteq have) \/ ~(Needed(ts) \subseteq ref)
=================================================================================
