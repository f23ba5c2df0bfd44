------------------------------ MODULE TransferTrace ------------------------------
(* Validates recorded histories of scatters and gathers of quantities and states
   (C07, C08), operation by operation.

   store[f][slot][r]: array of family f in a slot ("G1", "G2" global arrays, on the
   roots; "A1", "A2" local arrays) of rank r, or Absent.                             *)
EXTENDS Transfer, Json, IOUtils, FiniteSets
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, store
vars == <<i, l, store>>
T == Trace[i]
S == [kind |-> T.kind, layout |-> T.layout]
Ranks == 0..(NRanks(S) - 1)
Roots == { r \in Ranks : IsRoot(S, r) }
Fams == 1..Len(T.fams)
D(f) == T.fams[f].dims
Absent == [q |-> <<>>, d |-> << -1 >>]
Slots == {"G1", "G2", "A1", "A2"}

Op == T.ops[l]
Obs == T.obs[l]

(* a returned quantity x as the array it must be equal to *)
MetaBad(f, x, global) ==
  IF x.dims # (IF global /\ S.kind = "cube" THEN <<"tile">> ELSE <<>>) \o T.fams[f].names THEN "wrong dimensions of the result"
  ELSE IF x.units # T.fams[f].units THEN "wrong units of the result"
  ELSE IF x.dtype # T.fams[f].dtype THEN "wrong type of the result"
  ELSE ""

(* result x of scattering g to rank r, into `into` (Absent: fresh) *)
ScatterBad(f, r, g, into, x) ==
  LET fresh == into = Absent
      base == IF fresh THEN Blank(LocalLayout(S, D(f))) ELSE into
  IN IF x.ret # "quantity" THEN "scatter returned no quantity"
     ELSE IF ~fresh /\ ~x.same THEN "the given quantity was not returned"
     ELSE IF x.q # base.q THEN "wrong extent of the result"
     ELSE IF MetaBad(f, x, FALSE) # "" /\ fresh THEN MetaBad(f, x, FALSE)
     ELSE IF x.d # Scattered(S, D(f), g, base, r).d THEN
            IF fresh \/ \A e \in 1..Size(base.q) : Inside(base.q, Coord(base.q, Strides(base.q), e-1)) \/ x.d[e] = base.d[e]
            THEN "a rank received wrong values" ELSE "values outside the compute domain changed"
     ELSE ""
GatherBad(f, root, parts, into, x) ==
  LET fresh == into = Absent
      base == IF fresh THEN Blank(GlobalLayout(S, D(f))) ELSE into
  IN IF x.ret # "quantity" THEN "gather returned no quantity on the root"
     ELSE IF ~fresh /\ ~x.same THEN "the given quantity was not returned"
     ELSE IF x.q # base.q THEN "wrong extent of the result"
     ELSE IF fresh /\ MetaBad(f, x, TRUE) # "" THEN MetaBad(f, x, TRUE)
     ELSE IF ~GatherOK(S, D(f), root, parts, base, x) THEN "gathered values are wrong"
     ELSE ""

Arr(x) == [q |-> x.q, d |-> x.d]
First(badset) == IF badset = {} THEN "" ELSE CHOOSE b \in badset : TRUE

(* ---- single quantities ---- *)
ScatterOp ==
  LET f == Op.fam
      into(r) == IF Op.dst = "fresh" THEN Absent ELSE store[f][Op.dst][r]
      bad == First({ b \in { ScatterBad(f, r, store[f][Op.src][Root(S, r)], into(r), Obs.res[r+1]) : r \in Ranks } : b # "" })
      slot == IF Op.dst = "fresh" THEN "A2" ELSE Op.dst
  IN [bad |-> bad, upd |-> [g \in Fams |-> IF g # f THEN store[g] ELSE
        [store[g] EXCEPT ![slot] = [r \in Ranks |-> Arr(Obs.res[r+1])]]]]
GatherOp ==
  LET f == Op.fam
      into(r) == IF Op.dst = "fresh" THEN Absent ELSE store[f][Op.dst][r]
      bad == First({ b \in { GatherBad(f, r, store[f][Op.src], into(r), Obs.res[r+1]) : r \in Roots }
                     \cup { IF Obs.res[r+1].ret = "none" THEN "" ELSE "gather returned something on another rank" : r \in Ranks \ Roots } : b # "" })
      slot == IF Op.dst = "fresh" THEN "G2" ELSE Op.dst
  IN [bad |-> bad, upd |-> [g \in Fams |-> IF g # f THEN store[g] ELSE
        [store[g] EXCEPT ![slot] = [r \in Ranks |-> IF r \in Roots THEN Arr(Obs.res[r+1]) ELSE Absent]]]]
(* a scatter without source: refused on the root, before anything is sent *)
RefuseOp == [bad |-> IF \E r \in Roots : Obs.res[r+1].ret # "error" THEN "missing source was accepted" ELSE "", upd |-> store]
WriteOp ==
  LET f == Op.fam IN
  [bad |-> "", upd |-> [g \in Fams |-> IF g # f THEN store[g] ELSE
     [store[g] EXCEPT ![Op.dst] = [r \in Ranks |-> IF Obs.res[r+1].ret = "none" THEN store[g][Op.dst][r] ELSE Arr(Obs.res[r+1])]]]]

(* ---- states ---- *)
Names(fs) == { T.fams[f].name : f \in fs }
ToSet(s) == { s[k] : k \in 1..Len(s) }
(* what is wrong with the state x returned on a rank: fs were transferred, pre are the
   families that the receiving state had, time the expected one                       *)
StateBad(x, given, fs, pre, time) ==
  LET keys == Names(ToSet(fs) \cup pre) \cup (IF time # "" THEN {"time"} ELSE {}) \cup (IF given /\ Op.extra THEN {"extra"} ELSE {})
  IN IF x.ret # "state" THEN "no state was returned"
     ELSE IF given /\ ~x.sameState THEN "the given state was not returned"
     ELSE IF ToSet(x.keys) # keys THEN "wrong variables in the received state"
     ELSE IF x.time # time THEN "wrong time in the received state"
     ELSE IF given /\ Op.extra /\ ~x.sameExtra THEN "an entry that was not transferred changed"
     ELSE ""
SameEntries(x, fs, pre, r) ==
  \A f \in pre \ ToSet(fs) : x.entries[f].same /\ x.entries[f].d = store[f]["A1"][r].d
TimeAfter(sent, had) == IF sent # "" THEN sent ELSE had
ScatterStateOp ==
  LET pre(r) == IF Op.given THEN ToSet(Op.pre[r+1]) ELSE {}
      bad1(r) == StateBad(Obs.res[r+1], Op.given, Op.names, pre(r), TimeAfter(Op.time, IF Op.given THEN Op.recvTime ELSE ""))
      bad2(r) == First({ b \in { ScatterBad(f, r, store[f]["G1"][Root(S, r)],
                                            IF f \in pre(r) THEN store[f]["A1"][r] ELSE Absent,
                                            Obs.res[r+1].entries[f]) : f \in ToSet(Op.names) } : b # "" })
      bad(r) == IF bad1(r) # "" THEN bad1(r) ELSE IF bad2(r) # "" THEN bad2(r)
                ELSE IF ~SameEntries(Obs.res[r+1], Op.names, pre(r), r) THEN "an entry that was not transferred changed"
                ELSE IF ~Obs.res[r+1].sentSame THEN "the sent state was modified" ELSE ""
      b == First({ bad(r) : r \in Ranks } \ {""})
  IN [bad |-> b,
      upd |-> IF b # "" THEN store ELSE
        [f \in Fams |-> IF f \notin ToSet(Op.names) THEN store[f] ELSE
           [store[f] EXCEPT !["A2"] = [r \in Ranks |-> IF f \in pre(r) THEN @[r] ELSE Arr(Obs.res[r+1].entries[f])],
                            !["A1"] = [r \in Ranks |-> IF f \in pre(r) THEN Arr(Obs.res[r+1].entries[f]) ELSE @[r]]]]]
GatherStateOp ==
  LET pre == IF Op.given THEN ToSet(Op.pre[1]) ELSE {}
      bad1(r) == StateBad(Obs.res[r+1], Op.given, Op.names, pre, TimeAfter(Op.time, IF Op.given THEN Op.recvTime ELSE ""))
      bad2(r) == First({ b \in { GatherBad(f, r, store[f]["A1"],
                                           IF f \in pre THEN store[f]["G1"][r] ELSE Absent,
                                           Obs.res[r+1].entries[f]) : f \in ToSet(Op.names) } : b # "" })
      bad(r) == IF bad1(r) # "" THEN bad1(r) ELSE IF bad2(r) # "" THEN bad2(r)
                ELSE IF \E f \in pre \ ToSet(Op.names) : ~Obs.res[r+1].entries[f].same \/ Obs.res[r+1].entries[f].d # store[f]["G1"][r].d
                     THEN "an entry that was not transferred changed" ELSE ""
      b == First(({ bad(r) : r \in Roots } \cup { IF Obs.res[r+1].sentSame THEN "" ELSE "the sent state was modified" : r \in Ranks }) \ {""})
  IN [bad |-> b,
      upd |-> IF b # "" THEN store ELSE
        [f \in Fams |-> IF f \notin ToSet(Op.names) THEN store[f] ELSE
           [store[f] EXCEPT !["G2"] = [r \in Ranks |-> IF f \in pre \/ r \notin Roots THEN @[r] ELSE Arr(Obs.res[r+1].entries[f])],
                            !["G1"] = [r \in Ranks |-> IF f \in pre /\ r \in Roots THEN Arr(Obs.res[r+1].entries[f]) ELSE @[r]]]]]

Result == CASE Op.op = "scatter" -> ScatterOp [] Op.op = "gather" -> GatherOp
            [] Op.op = "refuse" -> RefuseOp [] Op.op = "write" -> WriteOp
            [] Op.op = "scatter_state" -> ScatterStateOp [] Op.op = "gather_state" -> GatherStateOp

(* every object at the end is what the operations made it *)
FinalBad == LET wrong == { x \in Fams \X Slots \X Ranks :
                  LET a == store[x[1]][x[2]][x[3]] IN
                  a # Absent /\ T.final[x[3]+1][x[1]][x[2]] # a.d }
            IN IF wrong = {} THEN "" ELSE "an array changed that no operation wrote"
Outcome == IF T.deadlock THEN "ranks wait for each other forever"
           ELSE IF T.error # "" THEN "a valid operation raised an error"
           ELSE IF T.misuse # "" THEN "collective calls do not match"
           ELSE IF T.leftover # 0 THEN "messages left undelivered" ELSE ""

Reject(clause, why) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << clause >>, why |-> why]))
Finish == /\ PrintT("@DONE " \o ToJson(T.id))
          /\ i' = i + Shards /\ l' = 0 /\ store' = <<>>
TraceInit == i \in 1..Shards /\ l = 0 /\ store = <<>>
Begin == /\ l = 0
         /\ IF Outcome # "" THEN Reject(Outcome, << T.error, T.misuse >>) /\ Finish
            ELSE /\ l' = 1 /\ i' = i
                 /\ store' = [f \in Fams |-> [s \in Slots |-> [r \in Ranks |->
                      LET x == T.start[r+1][f][s] IN IF x.ret = "none" THEN Absent ELSE Arr(x)]]]
Step == /\ l >= 1 /\ l <= Len(T.ops)
        /\ \E x \in {TLCEval(Result)} :
           IF x.bad # "" THEN Reject(x.bad, [step |-> l, op |-> Op]) /\ Finish
           ELSE store' = x.upd /\ l' = l + 1 /\ i' = i
End == /\ l > Len(T.ops)
       /\ \E b \in {TLCEval(FinalBad)} : IF b # "" THEN Reject(b, "") ELSE TRUE
       /\ Finish
TraceNext == i <= Len(Trace) /\ (IF l = 0 THEN Begin ELSE IF l <= Len(T.ops) THEN Step ELSE End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
