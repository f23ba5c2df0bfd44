------------------------------- MODULE RestartTrace -------------------------------
EXTENDS Restart, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Names(D) == [k \in 1..Len(D) |-> D[k].name]
Calendars == << "360_day", "julian", "standard", "noleap" >>
BadRank(T, r) ==
  LET R == T.ranks[r+1]
      V == { T.vars[k].name : k \in Loaded(T) }
      kept == IF T.given THEN { T.vars[k].name : k \in { k \in 1..Len(T.vars) : T.vars[k].pre /\ T.vars[k].name # "" } } \cup {"extra"} ELSE {}
      got == { R.keys[k] : k \in 1..Len(R.keys) }
      time == HasTime(T) \/ (T.given /\ T.recvTime)
      wrong == { k \in Loaded(T) : LET v == T.vars[k]  e == R.entries[k] IN
                    \/ e.dims # Names(v.dims) \/ e.units # v.units
                    \/ e.extent # RankExtent(v.dims, T.layout)
                    \/ e.values # Part(T, v, T.bases[k], r)
                    \/ ~e.outside
                    \/ (T.given /\ v.pre /\ ~e.same) }
  IN IF V \ got # {} THEN << "a variable was not loaded", V \ got >>
     ELSE IF got \ (V \cup kept \cup {"time"}) # {} THEN << "other variables were loaded", got \ (V \cup kept) >>
     ELSE IF kept \ got # {} THEN << "an entry of the given state was lost", kept \ got >>
     ELSE IF (R.time # "") # time THEN << "time is missing, or there should be none", R.time >>
     ELSE IF time /\ R.time # (IF HasTime(T) THEN T.timeText ELSE T.recvTimeText) THEN << "wrong time", R.time >>
     ELSE IF wrong # {} THEN LET k == CHOOSE k \in wrong : TRUE IN
          << "a variable has the wrong values or metadata", [rank |-> r, var |-> T.vars[k], got |-> R.entries[k], want |-> Part(T, T.vars[k], T.bases[k], r)] >>
     ELSE IF R.touched # <<>> THEN << "a quantity that was not loaded changed", R.touched >>
     ELSE <<>>
Bad(T) == IF T.misuse # "" \/ T.deadlock THEN << "ranks do not agree on what to communicate", T.misuse >>
          ELSE IF T.error # "" THEN << "opening valid restart files failed", T.error >>
          ELSE LET w == { r \in 0..(Len(T.ranks)-1) : BadRank(T, r) # <<>> } IN
               IF w = {} THEN <<>> ELSE BadRank(T, CHOOSE r \in w : \A q \in w : r <= q)
Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> b[2]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
