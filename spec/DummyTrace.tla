------------------------------- MODULE DummyTrace -------------------------------
(* Validates histories of the ranks' calls against what MPI delivers; a history ends with
   the first call that waits for another rank.  Each group of ranks is a communicator of its own.  The value of call l is l (scatter: l and
   the rank it is for). *)
EXTENDS Mpi, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, s, post     \* post: number of a posted receive -> its position
vars == << i, l, s, post >>
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
S == s[Op.grp]
After == CASE Op.op \in {"bcast", "scatter"} -> Call(S, Op.op, Op.rank, l)
           [] Op.op = "gather" -> GatherCall(S, Op.root, Op.rank, l)
           [] Op.op = "send" -> Send(S, Op.rank, Op.peer, Op.tag, l)
           [] Op.op \in {"post", "recv"} -> Post(S, Op.rank, Op.peer, Op.tag)
           [] OTHER -> S
Answer == CASE Op.op \in {"bcast", "scatter"} -> FromRoot(After, Op.op, Op.rank)
            [] Op.op = "gather" /\ Op.rank = Op.root -> AtRoot(After, Op.root)
            [] Op.op = "recv" -> Match(After, Len(After.posted))
            [] Op.op = "wait" -> Match(S, post[Op.no])
            [] OTHER -> << "nothing" >>
Size == LET RECURSIVE P(_)  P(x) == IF x = <<>> THEN 1 ELSE Head(x) * P(Tail(x)) IN P(T.shape)
Block(v, r) == [k \in 1..Size |-> 1000*v + 100*r + k]
RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o Cat(Tail(x))
GroupSize == Len(T.groups[Op.grp].ranks)
Expected == CASE Answer[1] = "nothing" -> <<>>
              [] Op.op = "bcast" -> << Answer[2] >>
              [] Op.op = "scatter" -> Block(Answer[2], Op.rank)
              [] Op.op = "gather" -> Cat([r \in 1..GroupSize |-> Block(Answer[2][r], 0)])
              [] OTHER -> Block(Answer[2], 0)
Bad == IF ~Obs.error /\ Obs.who # << Op.rank, GroupSize >> THEN "wrong rank or size of a communicator"
       ELSE IF Answer = Wait THEN (IF Obs.error THEN "" ELSE "a call did not wait for another rank's")
       ELSE IF Obs.error THEN "an error was raised"
       ELSE IF Obs.got # Expected THEN "stale or foreign data" ELSE ""
Reject(c) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << c >>, why |-> [step |-> l, op |-> Op, obs |-> Obs, expected |-> Answer]]))
Fr(k) == IF k <= Len(Trace) THEN [w \in 1..Len(Trace[k].groups) |-> Fresh(Len(Trace[k].groups[w].ranks))] ELSE <<>>
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1 /\ s' = Fr(i + Shards) /\ post' = << >>
TraceInit == i \in 1..Shards /\ l = 1 /\ s = Fr(i) /\ post = << >>
Step == \E bad \in {TLCEval(Bad)} :
        IF bad # "" THEN Reject(bad) /\ Finish
        ELSE IF Answer = Wait THEN Finish
        ELSE s' = [s EXCEPT ![Op.grp] = After] /\ post' = (IF Op.op = "post" THEN (Op.no :> Len(After.posted)) @@ post ELSE post) /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
