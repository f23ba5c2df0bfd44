------------------------------- MODULE HaloAsyncGen -------------------------------
(* Generates histories of overlapping updates on one communicator (C05): fields, and
   phases in each of which all ranks start the same updates in the same order, wait for
   them in orders of their own (SameOrder = FALSE) or a common one, and overwrite some
   fields after waiting for them.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxL, MaxPhases, MaxFields, Deliveries, SameOrder
VARIABLES sc, p
One(S) == {RandomElement(S)}
Orders == { <<"x","y">>, <<"y","x">>, <<"o","y","x">>, <<"x","y","o">>, <<"y","o","x">>, <<"x","o","y">> }
Kinds == { [kind |-> "scalar", stag |-> << <<0,0>> >>], [kind |-> "scalar", stag |-> << <<1,1>> >>],
           [kind |-> "vector", stag |-> << <<0,0>>, <<0,0>> >>],
           [kind |-> "vector", stag |-> << <<1,1>>, <<1,1>> >>],
           [kind |-> "vector", stag |-> << <<0,1>>, <<1,0>> >>],
           [kind |-> "vector", stag |-> << <<1,0>>, <<0,1>> >>],
           [kind |-> "cgrid",  stag |-> << <<0,1>>, <<1,0>> >>] }
Dim(ax, f, o, e, s) == [axis |-> ax, iface |-> f, origin |-> o, extent |-> e, shape |-> s]
NRanks == 6*sc.L*sc.L
Perm(S) == RandomElement({ q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b] })

Init == sc = [L |-> 0] /\ p = 0
Setup == /\ p = 0 /\ p' = 1
         /\ \E L \in One(1..MaxL), n \in One(1..3), nf \in One(2..MaxFields), np \in One(1..MaxPhases), sd \in One(0..99999),
               dl \in One(Deliveries), po \in One({"random", "stay", "prio", "rr"}), dt \in One({"float64", "float32", "int32", "int64"}) :
              sc' = [L |-> L, n |-> IF L > 1 THEN (n % 2) + 1 ELSE n, nf |-> nf, np |-> np, seed |-> sd,
                     delivery |-> dl, policy |-> po, dtype |-> dt, fields |-> <<>>, phases |-> <<>>]
(* a field: what it is and how its arrays lie; fields of equal layout are likely *)
AddField ==
  /\ p >= 1 /\ Len(sc.fields) < sc.nf /\ p' = p + 1
  /\ \E k \in One(Kinds), o \in One(Orders), lo \in One(0..1), hi \in One(0..1), zo \in One(0..1), ze \in One(1..2),
        mo \in One({"C", "F", "strided", "reversed", "inner"}), twin \in One(1..3) :
       LET H == IF sc.n > 1 THEN 2 ELSE 1
           Q(c) == [d \in 1..Len(o) |->
                LET ax == o[d]
                    f == IF ax = "x" THEN k.stag[c][1] ELSE IF ax = "y" THEN k.stag[c][2] ELSE 0
                    e == IF ax = "o" THEN ze ELSE sc.n + f
                    og == IF ax = "o" THEN zo ELSE H + lo
                IN Dim(ax, f, og, e, og + e + (IF ax = "o" THEN 0 ELSE H + hi))]
           new == [kind |-> k.kind, mem |-> mo, qs |-> [c \in 1..Len(k.stag) |-> Q(c)]]
       IN sc' = [sc EXCEPT !.fields = Append(@, IF twin = 1 /\ @ # <<>> THEN @[Len(@)] ELSE new)]
AddPhase ==
  /\ p >= 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.phases) < sc.np /\ p' = p + 1
  /\ \E S \in One((SUBSET (1..sc.nf)) \ {{}}), own \in One(BOOLEAN), H \in {IF sc.n > 1 THEN 2 ELSE 1} :
     \E st \in {TLCEval(Perm(S))}, common \in {TLCEval(Perm(1..Cardinality(S)))} :
     LET U(k) == [field |-> st[k],
                  kind |-> IF sc.fields[st[k]].kind = "cgrid" THEN RandomElement({"vector", "sync"}) ELSE sc.fields[st[k]].kind,
                  npts |-> RandomElement(1..H)]
     IN \E starts \in {TLCEval([k \in 1..Cardinality(S) |-> U(k)])},
           waits \in {TLCEval([r \in 1..NRanks |-> IF SameOrder \/ own THEN common ELSE Perm(1..Cardinality(S))])},
           writes \in {TLCEval([r \in 1..NRanks |-> [k \in 1..Cardinality(S) |-> RandomElement({0, 1, 2})]])} :
        sc' = [sc EXCEPT !.phases = Append(@, [starts |-> starts, waits |-> waits,
                  writes |-> [r \in 1..NRanks |-> [k \in 1..Cardinality(S) |-> IF writes[r][k] = 1 THEN 1 ELSE 0]]])]
Emit == /\ p >= 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.phases) = sc.np
        /\ p < 1000 /\ p' = 1000 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddField \/ AddPhase \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
