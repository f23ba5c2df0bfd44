--------------------------------- MODULE TimerMC ---------------------------------
(* The accounting of a timer against a ghost log of what happened, with timed blocks that
   are nested, overlap and are left by exceptions. *)
EXTENDS Timer
CONSTANTS Names, MaxNow, MaxLog, Broken
VARIABLES t, now, log, blocks, err
vars == << t, now, log, blocks, err >>
Log(e) == log' = Append(log, e)
Init == t = Fresh(FALSE) /\ now = 0 /\ log = <<>> /\ blocks = {} /\ err = FALSE
Take(r) == /\ t' = r.timer /\ err' = r.error
BadDisable == Ok([t EXCEPT !.on = FALSE])
BadStop(n) == IF n \notin DOMAIN t.running THEN Error(t) ELSE Stop([t EXCEPT !.on = TRUE], n, now)
BadReset == Ok([t EXCEPT !.acc = << >>])
DoStart(n) == Take(Start(t, n, now)) /\ Log(<< "start", n, now, err', t.on >>) /\ UNCHANGED << now, blocks >>
DoStop(n) == Take(Stop(t, n, now)) /\ Log(<< "stop", n, now, err', t.on >>) /\ UNCHANGED << now, blocks >>
Enter(n) == /\ Cardinality(blocks) < 2 /\ Take(Start(t, n, now)) /\ Log(<< "start", n, now, err', t.on >>) /\ UNCHANGED now
            /\ blocks' = IF err' THEN blocks ELSE blocks \cup {n}
(* left normally or by an exception: the clock is stopped (not if Broken) *)
Leave(n, exc) == /\ n \in blocks /\ blocks' = blocks \ {n}
                 /\ IF exc /\ Broken = "exception" THEN UNCHANGED t /\ err' = TRUE ELSE Take(Stop(t, n, now))
                 /\ Log(<< "stop", n, now, err' /\ ~(exc /\ Broken = "exception"), t.on >>) /\ UNCHANGED now
DoReset == Take(IF Broken = "reset" THEN BadReset ELSE Reset(t)) /\ Log(<< "reset", "", now, FALSE, t.on >>) /\ UNCHANGED << now, blocks >>
DoEnable == Take(Enable(t)) /\ Log(<< "enable", "", now, FALSE, t.on >>) /\ UNCHANGED << now, blocks >>
DoDisable == Take(IF Broken = "disable" THEN BadDisable ELSE Disable(t)) /\ Log(<< "disable", "", now, err', t.on >>) /\ UNCHANGED << now, blocks >>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED << t, log, blocks, err >>
Next == Tick \/ (Len(log) < MaxLog /\ (DoReset \/ DoEnable \/ DoDisable \/ \E n \in Names : DoStart(n) \/ DoStop(n) \/ Enter(n) \/ \E exc \in BOOLEAN : Leave(n, exc)))
Spec == Init /\ [][Next]_vars
(* completed intervals of a name since the last reset: pairs of a start and the next stop *)
LastReset == LET S == { k \in 1..Len(log) : log[k][1] = "reset" } IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Good(k, w, n) == log[k][1] = w /\ log[k][2] = n /\ ~log[k][4] /\ log[k][5]
Pairs(n) == { p \in (1..Len(log)) \X (1..Len(log)) : p[1] < p[2] /\ p[2] > LastReset /\ Good(p[1], "start", n) /\ Good(p[2], "stop", n)
               /\ ~\E k \in (p[1]+1)..(p[2]-1) : Good(k, "start", n) \/ Good(k, "stop", n) }
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN log[p[2]][3] - log[p[1]][3] + Sum(S \ {p})
Inv == \A n \in Names : Value(t.acc, n) = Sum(Pairs(n)) /\ Value(t.hits, n) = Cardinality(Pairs(n))
        /\ (n \in DOMAIN t.acc <=> Pairs(n) # {}) /\ DOMAIN t.acc = DOMAIN t.hits
NothingRunsWhenOff == ~t.on => t.running = << >>
(* no block that was left leaves its clock running, unless it was started again *)
BlocksStop == [][\A n \in Names : n \in blocks /\ n \notin blocks' => n \notin DOMAIN t'.running]_vars
=================================================================================
