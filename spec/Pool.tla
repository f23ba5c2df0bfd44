----------------------------------- MODULE Pool -----------------------------------
(* A pool of buffers: the free buffers of each key, and who holds which buffer.  Buffers
   have an identity; nothing says when a free one is used again or a new one is made. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [made |-> << >>, free |-> {}, held |-> << >>]      \* buffer -> key; free buffers; holder -> buffer
Remove(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
CanMake(s, b, k) == b \notin DOMAIN s.made
CanReuse(s, b, k) == b \in s.free /\ s.made[b] = k
Make(s, h, b, k) == [s EXCEPT !.made = (b :> k) @@ @, !.held = (h :> b) @@ @]
Reuse(s, h, b) == [s EXCEPT !.free = @ \ {b}, !.held = (h :> b) @@ @]
Release(s, h) == [s EXCEPT !.free = @ \cup {s.held[h]}, !.held = Remove(@, h)]
Lose(s, h) == [s EXCEPT !.held = Remove(@, h)]              \* the buffer is never used again
Exclusive(s) == /\ \A g, h \in DOMAIN s.held : g # h => s.held[g] # s.held[h]
                /\ \A h \in DOMAIN s.held : s.held[h] \notin s.free
=================================================================================
