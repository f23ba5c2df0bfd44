------------------------------- MODULE CaptureTrace -------------------------------
(* Validates histories of captures; what is written is a numbered piece. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, orig, open      \* pieces at the original destinations; open captures << stream, pieces >>
vars == << i, l, orig, open >>
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
Tops(s) == { k \in 1..Len(open) : open[k][1] = s }
Inner(s) == IF Tops(s) = {} THEN 0 ELSE CHOOSE k \in Tops(s) : \A j \in Tops(s) : j <= k
OrigAfter == IF Op.op = "write" /\ Inner(Op.stream) = 0 THEN [orig EXCEPT ![Op.stream] = Append(@, l)] ELSE orig
OpenAfter == CASE Op.op = "enter" -> Append(open, << Op.stream, <<>> >>)
               [] Op.op = "write" /\ Inner(Op.stream) # 0 -> [open EXCEPT ![Inner(Op.stream)][2] = Append(@, l)]
               [] Op.op = "leave" -> SubSeq(open, 1, Op.k - 1) \o SubSeq(open, Op.k + 1, Len(open))
               [] OTHER -> open
Bad == IF Obs.error THEN "an error was raised"
       ELSE IF Obs.orig # OrigAfter THEN "other data at the original destination"
       ELSE IF Op.op = "leave" /\ ~Op.exc /\ Obs.captured # open[Op.k][2] THEN "other data captured than written"
       ELSE IF Op.op = "leave" /\ Op.exc /\ Obs.captured # <<>> /\ Obs.captured # open[Op.k][2] THEN "other data captured than written"
       ELSE IF Op.op = "leave" /\ Op.exc /\ ~Obs.passed THEN "an exception was not passed on"
       ELSE IF OpenAfter = <<>> /\ Obs.leaked # 0 THEN "file descriptors leaked"
       ELSE IF ~Obs.earlier THEN "an earlier capture was altered" ELSE ""
Reject(c) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << c >>, why |-> [step |-> l, op |-> Op, obs |-> Obs, orig |-> OrigAfter, open |-> OpenAfter]]))
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1 /\ orig' = << <<>>, <<>> >> /\ open' = <<>>
TraceInit == i \in 1..Shards /\ l = 1 /\ orig = << <<>>, <<>> >> /\ open = <<>>
Step == \E bad \in {TLCEval(Bad)} : IF bad # "" THEN Reject(bad) /\ Finish ELSE orig' = OrigAfter /\ open' = OpenAfter /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
