------------------------------- MODULE InstantsTrace -------------------------------
EXTENDS Instants, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Blanks == {" ", "t", "n"}
Want(op) == IF op.op = "instant" THEN [fields |-> Fields(op.day, op.sec, op.us), equal |-> FALSE, refused |-> FALSE]
            ELSE LET e == Same(op.a, op.b, Blanks) IN [fields |-> <<>>, equal |-> e, refused |-> ~e]
Bad(T, k) ==
  LET op == T.ops[k]  o == T.obs[k]  w == Want(op) IN
  IF o.error # "" THEN "an unexpected error"
  ELSE IF o.fields # w.fields THEN "another instant"
  ELSE IF o.equal # w.equal THEN "units compared wrongly"
  ELSE IF o.refused # w.refused THEN "units checked wrongly"
  ELSE ""
Check(T) ==
  \E bad \in {TLCEval({ k \in 1..Len(T.ops) : Bad(T, k) # "" })} :
    IF bad = {} THEN TRUE
    ELSE LET k == CHOOSE k \in bad : TRUE IN
         PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << Bad(T, k) >>, why |-> [op |-> T.ops[k], obs |-> T.obs[k], want |-> Want(T.ops[k]), zone |-> T.zone]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
