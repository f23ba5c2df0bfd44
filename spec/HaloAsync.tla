-------------------------------- MODULE HaloAsync --------------------------------
(* The protocol of overlapping asynchronous updates (C05), with the data abstracted to
   "the value rank r had in update u when it was started" (0) and "a later value" (1).

   A rank starts its updates in the common order, each posting one message to every
   neighbour, and waits for them in its own order; a wait receives from each neighbour
   in turn and then completes its own sends.  A send is eager (the message holds a copy
   of the value) or rendezvous (the message refers to the sender's buffer until it is
   received).  After a wait the rank may overwrite what it updated.

   Design = "ok" is what the code does; the other designs are mistakes that must be
   found: "sametag" uses one tag for all updates, "sendfirst" completes sends before
   receiving, "nosends" does not complete them at all.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NR, NU, Delivery, SameOrder, Design
Ranks == 0..(NR-1)
Updates == 1..NU
Nbrs(r) == << (r + 1) % NR, (r + NR - 1) % NR >>
Perms == { p \in [Updates -> Updates] : \A a, b \in Updates : a # b => p[a] # p[b] }
VARIABLES order,    \* order[r]: the order in which r waits
          started,  \* number of updates started
          waited,   \* number of waits finished
          step,     \* step of the current wait: 0..2 receives done
          val,      \* val[r][u]: 0, or 1 after overwriting
          got,      \* got[r][u]: sequence of received values
          chan      \* chan[<<s, d>>]: messages not yet received
vars == <<order, started, waited, step, val, got, chan>>
Pairs == { <<a, b>> \in Ranks \X Ranks : a # b }
Tag(u) == IF Design = "sametag" THEN 0 ELSE u

Init == /\ order \in [Ranks -> Perms]
        /\ SameOrder => \A r \in Ranks : order[r] = order[0]
        /\ started = [r \in Ranks |-> 0] /\ waited = [r \in Ranks |-> 0]
        /\ step = [r \in Ranks |-> 0]
        /\ val = [r \in Ranks |-> [u \in Updates |-> 0]]
        /\ got = [r \in Ranks |-> [u \in Updates |-> <<>>]]
        /\ chan = [p \in Pairs |-> <<>>]

Msg(r, u) == [tag |-> Tag(u), src |-> r, u |-> u, data |-> val[r][u]]
Start(r) ==
  LET u == started[r] + 1 IN
  /\ started[r] < NU
  /\ started' = [started EXCEPT ![r] = u]
  /\ chan' = [p \in Pairs |-> IF p[1] = r /\ (p[2] = Nbrs(r)[1] \/ p[2] = Nbrs(r)[2])
                              THEN Append(chan[p], Msg(r, u)) ELSE chan[p]]
  /\ UNCHANGED <<order, waited, step, val, got>>

Cur(r) == order[r][waited[r] + 1]
Waiting(r) == started[r] = NU /\ waited[r] < NU
Value(m) == IF Delivery = "eager" THEN m.data ELSE val[m.src][m.u]
Without(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
(* my message of update u to d has been received *)
Sent(r, u) == \/ Delivery = "eager"
              \/ \A p \in Pairs : p[1] = r => \A k \in 1..Len(chan[p]) : chan[p][k].u # u
CanReceive(r) == Design = "sendfirst" => Sent(r, Cur(r))
Recv(r) ==
  /\ Waiting(r) /\ step[r] < 2 /\ CanReceive(r)
  /\ LET u == Cur(r)   p == << Nbrs(r)[step[r]+1], r >>
         hits == { k \in 1..Len(chan[p]) : chan[p][k].tag = Tag(u) }
     IN /\ hits # {}
        /\ LET k == CHOOSE k \in hits : \A j \in hits : k <= j
               m == chan[p][k]
           IN /\ got' = [got EXCEPT ![r][u] = Append(@, << m.src, m.u, Value(m) >>)]
              /\ chan' = [chan EXCEPT ![p] = Without(@, k)]
        /\ step' = [step EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<order, started, waited, val>>
Finish(r) ==
  /\ Waiting(r) /\ step[r] = 2
  /\ Design = "nosends" \/ Sent(r, Cur(r))
  /\ waited' = [waited EXCEPT ![r] = @ + 1]
  /\ step' = [step EXCEPT ![r] = 0]
  /\ UNCHANGED <<order, started, val, got, chan>>
Write(r) ==
  \E k \in 1..waited[r] :
    /\ val[r][order[r][k]] = 0
    /\ val' = [val EXCEPT ![r][order[r][k]] = 1]
    /\ UNCHANGED <<order, started, waited, step, got, chan>>
Done == (\A r \in Ranks : waited[r] = NU) /\ UNCHANGED vars
Next == (\E r \in Ranks : Start(r) \/ Recv(r) \/ Finish(r) \/ Write(r)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A r \in Ranks : WF_vars(Start(r) \/ Recv(r) \/ Finish(r))

(* every value received is that of the right update, as it was when it was started *)
Right == \A r \in Ranks, u \in Updates : \A k \in 1..Len(got[r][u]) :
            got[r][u][k] = << Nbrs(r)[k], u, 0 >>
Clean == (\A r \in Ranks : waited[r] = NU) => \A p \in Pairs : chan[p] = <<>>
Progress == <>(\A r \in Ranks : waited[r] = NU)
=================================================================================
