------------------------------ MODULE StateFileTrace ------------------------------
(* Validates histories of reading and writing files of states. *)
EXTENDS StateFile, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, files
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
Sent == [time |-> Op.time, vars |-> Obs.sent, held |-> Op.kind = ""]
After == IF Op.op = "write" THEN [files EXCEPT ![Op.file] = Written(files[Op.file], Sent)] ELSE files
Bad == CASE Op.op = "write" ->
              IF Refused(Sent) # Obs.error THEN (IF Obs.error THEN "writing a state failed" ELSE IF Op.kind = "" THEN "a state without time was written" ELSE "a state that no file can hold was written")
              ELSE IF ~Obs.same THEN "writing changed the state" ELSE ""
         [] Op.op = "read" ->
              IF files[Op.file] = NoFile THEN ""
              ELSE IF Obs.error THEN "reading a state failed"
              ELSE IF { Obs.got[k].name : k \in 1..Len(Obs.got) } # { v.name : v \in files[Op.file].vars } THEN "other variables were read than written"
              ELSE IF { Obs.got[k] : k \in 1..Len(Obs.got) } # files[Op.file].vars THEN "a variable was not read as it was written"
              ELSE IF Obs.time # files[Op.file].time THEN "another time was read than written" ELSE ""
         [] OTHER -> IF Obs.error THEN "" ELSE "a file without a single decodable time was read"
Reject(c) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << c >>, why |-> [step |-> l, op |-> Op, obs |-> Obs]]))
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1 /\ files' = << NoFile, NoFile >>
TraceInit == i \in 1..Shards /\ l = 1 /\ files = << NoFile, NoFile >>
Step == \E bad \in {TLCEval(Bad)} : IF bad # "" THEN Reject(bad) /\ Finish ELSE files' = After /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_<< i, l, files >>
=================================================================================
