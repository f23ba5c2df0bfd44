------------------------------- MODULE HaloMixGen -------------------------------
(* Generates histories in which starts and waits of updates alternate freely on one
   communicator, with scatters, gathers and refused calls between them (C05), and with
   the communicator's timers switched on and off (C23, Timers = TRUE).

   All ranks follow `ops`: "start" an update, "due" (an update must be waited for now,
   by those ranks that have not done so yet), "gather" or "scatter" a field, "refuse" a
   call that is an error.  skip[r][k] > 2 lets rank r wait for an update of its choice
   before ops[k]; with SameOrder that is the one that is due next.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxL, MaxOps, MaxFields, Deliveries, SameOrder, Timers
VARIABLES sc, p
One(S) == {RandomElement(S)}
Orders == { <<"x","y">>, <<"y","x">>, <<"o","y","x">>, <<"x","y","o">>, <<"y","o","x">>, <<"x","o","y">> }
Kinds == { [kind |-> "scalar", stag |-> << <<0,0>> >>], [kind |-> "scalar", stag |-> << <<1,1>> >>],
           [kind |-> "scalar", stag |-> << <<0,0>> >>],
           [kind |-> "vector", stag |-> << <<0,0>>, <<0,0>> >>],
           [kind |-> "vector", stag |-> << <<0,1>>, <<1,0>> >>],
           [kind |-> "vector", stag |-> << <<1,0>>, <<0,1>> >>],
           [kind |-> "cgrid",  stag |-> << <<0,1>>, <<1,0>> >>] }
Dim(ax, f, o, e, s) == [axis |-> ax, iface |-> f, origin |-> o, extent |-> e, shape |-> s]
NRanks == 6*sc.L*sc.L
Init == sc = [L |-> 0] /\ p = 0
Setup == /\ p = 0 /\ p' = 1
         /\ \E L \in One(1..MaxL), n \in One(1..3), nf \in One(2..MaxFields), no \in One(5..MaxOps), sd \in One(0..99999), co \in One(BOOLEAN),
               dl \in One(Deliveries), po \in One({"random", "stay", "prio", "rr"}) :
              sc' = [L |-> L, n |-> IF L > 1 THEN (n % 2) + 1 ELSE n, nf |-> nf, no |-> no, seed |-> sd, coll |-> co, timers |-> Timers, same |-> SameOrder,
                     delivery |-> dl, policy |-> po, dtype |-> "float64", fields |-> <<>>, ops |-> <<>>, ups |-> <<>>, pend |-> <<>>, skip |-> <<>>,
                     writes |-> <<>>, clocks |-> <<>>]
AddField ==
  /\ p = 1 /\ Len(sc.fields) < sc.nf /\ p' = p
  /\ \E k \in One(Kinds), o \in One(Orders), lo \in One(0..1), hi \in One(0..1), zo \in One(0..1), ze \in One(1..2),
        mo \in One({"C", "F", "strided", "reversed", "inner"}), twin \in One(1..3), dt \in One({"float64", "float64", "float32", "int32", "int64"}) :
       LET H == IF sc.n > 1 THEN 2 ELSE 1
           Q(c) == [d \in 1..Len(o) |->
                LET ax == o[d]
                    f == IF ax = "x" THEN k.stag[c][1] ELSE IF ax = "y" THEN k.stag[c][2] ELSE 0
                    e == IF ax = "o" THEN ze ELSE sc.n + f
                    og == IF ax = "o" THEN zo ELSE H + lo
                IN Dim(ax, f, og, e, og + e + (IF ax = "o" THEN 0 ELSE H + hi))]
           new == [kind |-> k.kind, mem |-> mo, dtype |-> dt, qs |-> [c \in 1..Len(k.stag) |-> Q(c)]]
       IN sc' = [sc EXCEPT !.fields = Append(@, IF twin = 1 /\ @ # <<>> THEN @[Len(@)] ELSE new)]
Op(o, u, f) == [op |-> o, u |-> u, field |-> f]
Busy == { sc.ups[u].field : u \in { sc.pend[k] : k \in 1..Len(sc.pend) } }
Without(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
Scalars == { f \in 1..sc.nf : sc.fields[f].kind = "scalar" }
Due(k) == sc' = [sc EXCEPT !.ops = Append(@, Op("due", sc.pend[k], 0)), !.pend = Without(@, k)]
AddOp ==
  /\ p = 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E c \in One(IF sc.coll THEN 1..15 ELSE 1..12), f \in One(1..sc.nf), g \in One(IF Scalars = {} THEN {0} ELSE Scalars), k \in One(1..20), H \in {IF sc.n > 1 THEN 2 ELSE 1}, np \in One(1..2), sy \in One(BOOLEAN) :
       LET j == IF sc.pend = <<>> THEN 0 ELSE ((k % Len(sc.pend)) + 1)
           F == sc.fields[f]
           start == /\ sc' = [sc EXCEPT !.ops = Append(@, Op("start", Len(sc.ups) + 1, f)), !.pend = Append(@, Len(sc.ups) + 1),
                                 !.ups = Append(@, [field |-> f, kind |-> IF F.kind = "cgrid" THEN (IF sy THEN "sync" ELSE "vector") ELSE F.kind,
                                                    npts |-> IF np > H THEN H ELSE np])]
       IN IF c <= 6 /\ f \notin Busy THEN start
          ELSE IF c <= (IF sc.coll THEN 7 ELSE 9) /\ j > 0 THEN Due(j)
          ELSE IF c \in {8, 10, 13, 14} /\ sc.coll /\ g > 0 THEN sc' = [sc EXCEPT !.ops = Append(@, Op("gather", 0, g))]
          ELSE IF c \in {9, 11, 15} /\ sc.coll /\ g > 0 /\ g \notin Busy THEN sc' = [sc EXCEPT !.ops = Append(@, Op("scatter", 0, g))]
          ELSE IF c = 12 THEN sc' = [sc EXCEPT !.ops = Append(@, Op("refuse", 0, f))]
          ELSE IF f \notin Busy THEN start
          ELSE Due(j)
Flush == /\ p = 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.ops) >= sc.no /\ sc.pend # <<>> /\ p' = p
         /\ \E k \in One(1..20) : Due((k % Len(sc.pend)) + 1)
Choose ==
  /\ p = 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.ops) >= sc.no /\ sc.pend = <<>> /\ p' = 2
  /\ \E eager \in One(0..2) :
     \E skip \in {TLCEval([r \in 1..NRanks |-> [k \in 1..Len(sc.ops) |-> IF eager = 0 \/ (SameOrder /\ sc.coll) THEN 0 ELSE RandomElement(0..(2 + 3*eager))]])},
        writes \in {TLCEval([r \in 1..NRanks |-> [k \in 1..Len(sc.ups) |-> RandomElement({0, 0, 1})]])},
        clocks \in {TLCEval([r \in 1..NRanks |-> [k \in 1..Len(sc.ops) |-> IF Timers THEN RandomElement({0, 0, 1, 2}) ELSE 0]])} :
        sc' = [sc EXCEPT !.skip = skip, !.writes = writes, !.clocks = clocks]
Emit == /\ p = 2 /\ p' = 3 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddField \/ AddOp \/ Flush \/ Choose \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
