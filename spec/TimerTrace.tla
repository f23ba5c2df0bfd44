------------------------------- MODULE TimerTrace -------------------------------
(* Validates histories of two timers and a null timer; open blocks are a stack of
   << timer, name >>, of which any may be left. *)
EXTENDS Timer, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, ts, now
vars == << i, l, ts, now >>
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
New == << Fresh(FALSE), Fresh(FALSE), Fresh(TRUE) >>
Which == IF Op.op \in {"leave", "raise"} THEN Obs.block[1] ELSE Op.timer
t == ts[Which]
Res == CASE Op.op = "start" \/ Op.op = "enter" -> Start(t, Op.name, now)
         [] Op.op = "stop" -> Stop(t, Op.name, now)
         \* the clock is stopped; an exception in the block is passed on
         [] Op.op \in {"leave", "raise"} -> LET r == Stop(t, Obs.block[2], now) IN [r EXCEPT !.error = @ \/ Op.op = "raise"]
         \* a whole block that lasts k and is left by an exception
         [] Op.op = "raise in" -> LET r == Start(t, Op.name, now) IN IF r.error THEN r ELSE [Stop(r.timer, Op.name, now + Op.k) EXCEPT !.error = TRUE]
         [] Op.op = "reset" -> Reset(t) [] Op.op = "enable" -> Enable(t) [] Op.op = "disable" -> Disable(t)
         [] OTHER -> Ok(t)
Skip == Op.op \in {"leave", "raise"} /\ Obs.block = <<>>
After == IF Skip THEN ts ELSE [ts EXCEPT ![Which] = Res.timer]
Later == IF Op.op = "tick" THEN now + Op.k ELSE IF Op.op = "raise in" /\ ~Start(t, Op.name, now).error THEN now + Op.k ELSE now
Shown(f) == { << n, f[n] >> : n \in DOMAIN f }
Set(s) == { s[k] : k \in 1..Len(s) }
Bad == IF ~Skip /\ Res.error # Obs.error THEN (IF Obs.error THEN "an error was raised" ELSE "no error was raised")
       ELSE IF Op.op = "raise in" /\ ~Start(t, Op.name, now).error /\ ~Obs.own THEN "the exception of a timed block was replaced"
       ELSE IF Obs.entered # (Op.op = "enter" /\ ~Res.error) THEN "a timed block was entered or not"
       ELSE IF \E k \in 1..3 : After[k].on # Obs.timers[k].on THEN "wrong enabled flag"
       ELSE IF \E k \in 1..3 : Shown(After[k].acc) # Set(Obs.timers[k].times) THEN "wrong times"
       ELSE IF \E k \in 1..3 : Shown(After[k].hits) # Set(Obs.timers[k].hits) THEN "wrong hit counts"
       ELSE IF \E k \in 1..3 : \E w \in 1..2 : Obs.timers[k].warned[w] # (After[k].running # << >>)
            THEN "a warning about running clocks is missing or needless"
       ELSE IF ~Obs.reports THEN "what was reported earlier was altered" ELSE ""
Reject(c) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << c >>, why |-> [step |-> l, op |-> Op, obs |-> Obs, expected |-> After]]))
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1 /\ ts' = New /\ now' = 0
TraceInit == i \in 1..Shards /\ l = 1 /\ ts = New /\ now = 0
Step == \E bad \in {TLCEval(Bad)} : IF bad # "" THEN Reject(bad) /\ Finish ELSE ts' = After /\ now' = Later /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
