----------------------------------- MODULE Mpi -----------------------------------
(* What MPI delivers, for one communicator whose ranks make their calls in some order.
   An answer that would need a call that has not been made is Wait. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Wait == << "wait" >>
Fresh(n) == [n |-> n, bcast |-> [r \in 0..n-1 |-> <<>>], scatter |-> [r \in 0..n-1 |-> <<>>],
             gather |-> [root \in 0..n-1 |-> [r \in 0..n-1 |-> <<>>]],
             sent |-> <<>>, taken |-> {}, posted |-> <<>>]
(* collectives: the k-th call of each rank belong together *)
Call(s, kind, r, v) == [s EXCEPT ![kind][r] = Append(@, v)]
FromRoot(s, kind, r) == LET k == Len(s[kind][r]) IN IF Len(s[kind][0]) < k THEN Wait ELSE << "got", s[kind][0][k] >>
GatherCall(s, root, r, v) == [s EXCEPT !.gather[root][r] = Append(@, v)]
AtRoot(s, root) == LET k == Len(s.gather[root][root]) IN
   IF \E r \in 0..s.n-1 : Len(s.gather[root][r]) < k THEN Wait ELSE << "got", [r \in 1..s.n |-> s.gather[root][r-1][k]] >>
(* messages: matched by source, destination and tag in the order sent and posted *)
Send(s, from, to, tag, v) == [s EXCEPT !.sent = Append(@, [from |-> from, to |-> to, tag |-> tag, v |-> v])]
Post(s, at, from, tag) == [s EXCEPT !.posted = Append(@, [at |-> at, from |-> from, tag |-> tag])]
Rank(seq, k, f(_)) == Cardinality({ j \in 1..k : f(seq[j]) })
(* the message matching the p-th posted receive *)
Match(s, p) == LET q == s.posted[p]
                   nth == Rank(s.posted, p, LAMBDA x : x = q)
                   M == { k \in 1..Len(s.sent) : LET m == s.sent[k] IN m.from = q.from /\ m.to = q.at /\ m.tag = q.tag
                            /\ Rank(s.sent, k, LAMBDA x : x.from = q.from /\ x.to = q.at /\ x.tag = q.tag) = nth } IN
               IF M = {} THEN Wait ELSE << "got", s.sent[CHOOSE k \in M : TRUE].v >>
=================================================================================
