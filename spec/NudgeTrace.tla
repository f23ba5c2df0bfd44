------------------------------- MODULE NudgeTrace -------------------------------
(* Validates histories of nudging and of computing nudging tendencies. *)
EXTENDS Nudge, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
T == Trace[i]
Range(s) == { s[k] : k \in 1..Len(s) }
Op == T.ops[l]
Obs == T.obs[l]
N == Len(T.vars)
Timed == { k \in 1..N : T.vars[k].name \in Needed(Op.ts) }
ScaleOf(k) == Op.ts[CHOOSE j \in 1..Len(Op.ts) : Op.ts[j].name = T.vars[k].name].scale
Must == Refused(IF Op.lost = << "unknown" >> THEN Append(Op.ts, [name |-> "unknown"]) ELSE Op.ts, Range(Obs.have), Range(Obs.ref))
Right(k) == LET v == Obs.vars[k] IN
  IF k \in Timed /\ Op.op = "apply" /\ ~Obs.error
  THEN v.after = [j \in 1..Len(v.state) |-> Nudged(v.state[j], v.ref[j], ScaleOf(k), Op.dt)]
  ELSE v.after = v.state
Bad ==
  IF Must # Obs.error THEN (IF Must THEN "a missing variable was accepted" ELSE "nudging failed")
  ELSE IF \E k \in 1..N : ~Obs.vars[k].outside THEN "points outside of the compute domain were changed"
  ELSE IF \E k \in 1..N : ~Obs.vars[k].refSame THEN "the reference was changed"
  ELSE IF ~Obs.restSame THEN "something else of the state or the reference was changed"
  ELSE IF \E k \in 1..N : ~Right(k) THEN
       (IF Obs.error THEN "a refused nudge changed the state" ELSE IF Op.op = "tendencies" THEN "computing tendencies changed the state" ELSE "a variable was not nudged as required")
  ELSE IF Obs.error THEN ""
  ELSE IF Range(Obs.tendNames) # Needed(Op.ts) THEN "tendencies of other variables were returned"
  ELSE IF \E k \in Timed : LET v == Obs.vars[k]  t == v.tend[1] IN
            t.values # [j \in 1..Len(v.state) |-> Tendency(v.state[j], v.ref[j], ScaleOf(k))] THEN "wrong tendency"
  ELSE IF \E k \in Timed : LET t == Obs.vars[k].tend[1] IN
            t.dims # [j \in 1..Len(T.vars[k].dims) |-> T.vars[k].dims[j].name] \/ t.extent # [j \in 1..Len(T.vars[k].dims) |-> T.vars[k].dims[j].extent] \/ t.units # T.vars[k].units \o " s^-1"
       THEN "wrong metadata of a tendency"
  ELSE ""
Reject(c) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << c >>, why |-> [step |-> l, op |-> Op, obs |-> Obs]]))
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1
TraceInit == i \in 1..Shards /\ l = 1
Step == \E bad \in {TLCEval(Bad)} : IF bad # "" THEN Reject(bad) /\ Finish ELSE l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_<< i, l >>
=================================================================================
