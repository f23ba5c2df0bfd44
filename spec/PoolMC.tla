--------------------------------- MODULE PoolMC ---------------------------------
(* Any nesting and order of acquiring, writing and releasing; the contents every holder
   put into its buffer stay there until it releases it. *)
EXTENDS Pool
CONSTANTS Keys, Buffers, Holders, MaxWrites, Broken
VARIABLES s, want, content, mine, n
vars == << s, want, content, mine, n >>
Init == s = Empty /\ want = << >> /\ content = [b \in Buffers |-> 0] /\ mine = << >> /\ n = 0
SameSize(k, q) == IF Broken = "key" THEN TRUE ELSE k = q
Acquire(h, k) == /\ h \notin DOMAIN s.held /\ want' = (h :> k) @@ want /\ UNCHANGED << content, n >>
                 /\ mine' = Remove(mine, h)
                 /\ \E b \in Buffers :
                      \/ CanMake(s, b, k) /\ s' = LET m == Make(s, h, b, k) IN IF Broken = "early" THEN [m EXCEPT !.free = @ \cup {b}] ELSE m
                      \/ b \in s.free /\ SameSize(s.made[b], k) /\ s' = LET m == Reuse(s, h, b) IN IF Broken = "early" THEN [m EXCEPT !.free = @ \cup {b}] ELSE m
Write(h) == /\ h \in DOMAIN s.held /\ n < MaxWrites /\ n' = n + 1 /\ content' = [content EXCEPT ![s.held[h]] = n + 1]
            /\ mine' = (h :> n + 1) @@ mine /\ UNCHANGED << s, want >>
Leave(h, exc) == /\ h \in DOMAIN s.held /\ mine' = Remove(mine, h) /\ want' = Remove(want, h) /\ UNCHANGED << content, n >>
                 /\ \/ s' = Release(s, h)
                    \/ exc /\ s' = Lose(s, h)
Next == \E h \in Holders : Write(h) \/ (\E k \in Keys : Acquire(h, k)) \/ (\E exc \in BOOLEAN : Leave(h, exc))
Spec == Init /\ [][Next]_vars
Inv == /\ Exclusive(s)
       /\ \A h \in DOMAIN s.held : s.made[s.held[h]] = want[h] /\ (h \in DOMAIN mine => content[s.held[h]] = mine[h])
=================================================================================
