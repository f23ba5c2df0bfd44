--------------------------------- MODULE DummyMC ---------------------------------
(* How the stand-in communicator answers, next to MPI: one queue for each pair of ranks
   whatever the tag, one slot for each rank in a gather, receives done when waited for.
   They agree as long as nobody uses what the stand-in leaves out (Free). *)
EXTENDS Mpi
CONSTANTS N, MaxOps, Free        \* Free: which restriction is dropped, "no" for none
Ranks == 0..N-1
VARIABLES m, queue, slot, bc, ops, agree, open, over
vars == << m, queue, slot, bc, ops, agree, open, over >>
Init == m = Fresh(N) /\ queue = [p \in Ranks \X Ranks |-> <<>>] /\ slot = [r \in Ranks |-> << >>] /\ bc = << >>
        /\ ops = 0 /\ agree = TRUE /\ open = {} /\ over = FALSE
Op == ~over /\ ops < MaxOps /\ ops' = ops + 1
Answer(a, b) == agree' = (a = b) /\ over' = (b = Wait)
Keep == agree' = agree /\ over' = over
Tags == IF Free = "tags" THEN {1, 2} ELSE {1}
DoSend(r, t, g) == Op /\ m' = Send(m, r, t, g, ops) /\ queue' = [queue EXCEPT ![<< r, t >>] = Append(@, ops)] /\ Keep /\ UNCHANGED << slot, bc, open >>
DoPost(r, f, g) == Op /\ m' = Post(m, r, f, g) /\ open' = open \cup {Len(m.posted) + 1} /\ Keep /\ UNCHANGED << queue, slot, bc >>
DoWait(p) == /\ Op /\ p \in open /\ open' = open \ {p}
             /\ Free = "order" \/ \A q \in open : q < p => ~(m.posted[q].at = m.posted[p].at /\ m.posted[q].from = m.posted[p].from)
             /\ LET k == << m.posted[p].from, m.posted[p].at >> IN
                IF queue[k] = <<>> THEN Answer(Wait, Match(m, p)) /\ UNCHANGED queue
                ELSE Answer(<< "got", Head(queue[k]) >>, Match(m, p)) /\ queue' = [queue EXCEPT ![k] = Tail(@)]
             /\ UNCHANGED << m, slot, bc >>
Count(r) == Len(m.gather[0][r])
DoGather(r) ==
  /\ Op
  /\ \/ Free = "gather"
     \/ r # 0 /\ Count(r) = Count(0)
     \/ r = 0 /\ (Count(0) = 0 \/ \A q \in Ranks \ {0} : Count(q) > Count(0))
  /\ m' = GatherCall(m, 0, r, ops) /\ slot' = [slot EXCEPT ![r] = << ops >>]
  /\ IF r # 0 THEN Keep
     ELSE Answer(IF \E q \in Ranks : slot'[q] = << >> THEN Wait ELSE << "got", [q \in 1..N |-> slot'[q-1][1]] >>, AtRoot(m', 0))
  /\ UNCHANGED << queue, bc, open >>
DoBcast(r) == /\ Op /\ m' = Call(m, "bcast", r, ops) /\ bc' = IF r = 0 THEN Append(bc, ops) ELSE bc
              /\ LET k == Len(m'.bcast[r]) IN Answer(IF k > Len(bc') THEN Wait ELSE << "got", bc'[k] >>, FromRoot(m', "bcast", r))
              /\ UNCHANGED << queue, slot, open >>
Next == \/ \E r \in Ranks, t \in Ranks, g \in Tags : DoSend(r, t, g) \/ DoPost(r, t, g)
        \/ \E p \in open : DoWait(p)
        \/ \E r \in Ranks : DoGather(r) \/ DoBcast(r)
Spec == Init /\ [][Next]_vars
Inv == agree
=================================================================================
