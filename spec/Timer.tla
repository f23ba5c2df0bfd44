---------------------------------- MODULE Timer ----------------------------------
(* What a timer is: the clocks that run, with the moment each was started, and for every
   name the time and the number of the intervals that were completed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(null) == [null |-> null, on |-> ~null, running |-> << >>, acc |-> << >>, hits |-> << >>]
Value(f, n) == IF n \in DOMAIN f THEN f[n] ELSE 0
Remove(f, n) == [m \in DOMAIN f \ {n} |-> f[m]]
(* [timer afterwards, whether an error is raised] *)
Ok(t) == [timer |-> t, error |-> FALSE]
Error(t) == [timer |-> t, error |-> TRUE]
Start(t, n, now) == IF ~t.on THEN Ok(t) ELSE IF n \in DOMAIN t.running THEN Error(t)
                    ELSE Ok([t EXCEPT !.running = (n :> now) @@ @])
Stop(t, n, now) == IF ~t.on THEN Ok(t) ELSE IF n \notin DOMAIN t.running THEN Error(t)
                   ELSE Ok([t EXCEPT !.running = Remove(@, n),
                                     !.acc = (n :> Value(@, n) + now - t.running[n]) @@ @,
                                     !.hits = (n :> Value(@, n) + 1) @@ @])
Reset(t) == Ok([t EXCEPT !.acc = << >>, !.hits = << >>])
Enable(t) == IF t.null THEN Error(t) ELSE Ok([t EXCEPT !.on = TRUE])
Disable(t) == IF t.running # << >> THEN Error(t) ELSE Ok([t EXCEPT !.on = FALSE])
=================================================================================
