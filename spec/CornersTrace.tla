-------------------------------- MODULE CornersTrace --------------------------------
(* Validates histories of corner fills (C11). *)
EXTENDS Corners, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, d
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
ValidOrder == T.dims[1].axis = "x" /\ T.dims[2].axis = "y"
Result ==
  IF Op.op = "write" THEN [bad |-> "", d |-> Obs.d]
  ELSE IF ~ValidOrder \/ Op.dir \notin {"x", "y"}
       THEN [bad |-> IF ~Obs.error THEN "wrong dimension order or direction was accepted"
                     ELSE IF Obs.d # d THEN "a refused fill changed the data" ELSE "", d |-> d]
  ELSE LET want == TLCEval(Filled(T.dims, T.layout, T.rank, Op.dir, Op.n, d)) IN
       [bad |-> IF Obs.error THEN "a valid fill was refused"
                ELSE IF Obs.d # want THEN "wrong values after filling corners" ELSE "", d |-> want]
Reject(clause, why) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << clause >>, why |-> why]))
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 0 /\ d' = <<>>
TraceInit == i \in 1..Shards /\ l = 0 /\ d = <<>>
Begin == l = 0 /\ l' = 1 /\ i' = i /\ d' = T.start
Step == \E x \in {TLCEval(Result)} :
        IF x.bad # "" THEN Reject(x.bad, [step |-> l, op |-> Op, got |-> Obs.d, before |-> d]) /\ Finish
        ELSE d' = x.d /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ (IF l = 0 THEN Begin ELSE IF l > Len(T.ops) THEN Finish ELSE Step)
TraceSpec == TraceInit /\ [][TraceNext]_<< i, l, d >>
=================================================================================
