-------------------------------- MODULE CommTimerMC --------------------------------
(* The timer of one rank's communicator while updates are started, refused and waited
   for, and while its owner switches it between any two calls (C23).

   A call times its parts ("pack", "Isend", "unpack", "Recv") one after the other, each
   from a start to a stop that follows in the same call, also when the part fails.  So no
   clock runs between two calls, and the timer can be disabled there at any time, with
   updates outstanding too.  Broken designs: "spanning" times an update from its start to
   the end of its wait, "failure" leaves the clock of a failing part running, "unmatched"
   starts a clock when enabled and stops it when enabled, across a possible switch.      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxUps, Broken
Names == {"pack", "Isend", "unpack", "Recv"}
VARIABLES on, running, hits, pend, ups, todo, call, refused
vars == << on, running, hits, pend, ups, todo, call, refused >>
(* todo: the parts that the current call still has to time, call: what it is *)
Init == on = TRUE /\ running = {} /\ hits = [n \in Names |-> 0] /\ pend = 0 /\ ups = 0 /\ todo = <<>> /\ call = "none" /\ refused = FALSE
Idle == call = "none"
Begin(c, parts) == call' = c /\ todo' = parts /\ UNCHANGED << on, hits, pend, refused >>
StartUpdate == /\ Idle /\ ups < MaxUps /\ Begin("start", << "pack", "Isend", "unpack" >>) /\ ups' = ups + 1
               /\ running' = IF Broken \in {"spanning", "unmatched"} /\ on THEN running \cup {"Recv"} ELSE running
RefusedUpdate == Idle /\ ups < MaxUps /\ Begin("refuse", << "pack" >>) /\ ups' = ups + 1 /\ UNCHANGED running
Wait == Idle /\ pend > 0 /\ Begin("wait", << "Recv" >>) /\ UNCHANGED << ups, running >>
Time == /\ ~Idle /\ todo # <<>>
        /\ LET n == Head(todo)
               spans == n = "Recv" /\ Broken = "spanning"
               fails == call = "refuse"
           IN /\ todo' = Tail(todo)
              /\ running' = IF spans THEN running \ {n} ELSE IF fails /\ Broken = "failure" /\ on THEN running \cup {n} ELSE running
              /\ hits' = IF on /\ (~spans \/ n \in running) /\ ~(fails /\ Broken = "failure") THEN [hits EXCEPT ![n] = @ + 1] ELSE hits
        /\ UNCHANGED << on, pend, ups, call, refused >>
Return == /\ ~Idle /\ todo = <<>> /\ call' = "none"
          /\ pend' = CASE call = "start" -> pend + 1 [] call = "wait" -> pend - 1 [] OTHER -> pend
          /\ UNCHANGED << on, running, hits, ups, todo, refused >>
(* disabling is refused while clocks run *)
Disable == Idle /\ on' = (running # {}) /\ refused' = (refused \/ running # {}) /\ UNCHANGED << running, hits, pend, ups, todo, call >>
Enable == Idle /\ on' = TRUE /\ UNCHANGED << running, hits, pend, ups, todo, call, refused >>
Next == StartUpdate \/ RefusedUpdate \/ Wait \/ (todo # <<>> /\ Time) \/ Return \/ Disable \/ Enable
Spec == Init /\ [][Next]_vars
Inv == /\ Idle => running = {}
       /\ ~refused
(* nothing is recorded while the timer is off *)
NeverRefused == [][~on => hits' = hits]_vars
=====================================================================================
