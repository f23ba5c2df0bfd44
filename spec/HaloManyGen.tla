-------------------------------- MODULE HaloManyGen --------------------------------
(* Generates histories in which very many small updates are outstanding at once on one
   communicator (C05): all are started in one order and waited for in another one.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Counts, Deliveries, SameOrder
VARIABLES sc, p
One(S) == {RandomElement(S)}
Kinds == << [kind |-> "scalar", stag |-> << <<0,0>> >>], [kind |-> "scalar", stag |-> << <<1,1>> >>],
            [kind |-> "vector", stag |-> << <<0,0>>, <<0,0>> >>],
            [kind |-> "sync",   stag |-> << <<0,1>>, <<1,0>> >>] >>
Dim(ax, f) == [axis |-> ax, iface |-> f, origin |-> 1, extent |-> 1 + f, shape |-> 3 + f]
Field(k) == [kind |-> Kinds[k].kind, mem |-> "C",
             qs |-> [c \in 1..Len(Kinds[k].stag) |-> << Dim("y", Kinds[k].stag[c][2]), Dim("x", Kinds[k].stag[c][1]) >>]]
(* Counts are primes, so that these are permutations of 1..K *)
Order(K, a, b) == [k \in 1..K |-> ((a*k + b) % K) + 1]
Init == sc = <<>> /\ p = 0
Make ==
  /\ p = 0 /\ p' = 1
  /\ \E K \in One(Counts), dl \in One(Deliveries), po \in One({"random", "stay", "prio", "rr"}), sd \in One(0..99999),
        mix \in One({{1}, {1, 2}, {1, 3}, {1, 2, 3, 4}, {4, 1}}), a \in One(1..36), b \in One(0..99), back \in One(BOOLEAN) :
     \E kinds \in {TLCEval([k \in 1..K |-> RandomElement(mix)])},
        steps \in {TLCEval([r \in 1..6 |-> << RandomElement(1..36), RandomElement(0..99) >>])} :
     LET starts == [k \in 1..K |-> [field |-> Order(K, a, b)[k], kind |-> Kinds[kinds[Order(K, a, b)[k]]].kind, npts |-> 1]]
     IN sc' = [L |-> 1, n |-> 1, nf |-> K, np |-> 1, seed |-> sd, delivery |-> dl, policy |-> po, dtype |-> "float64",
               brief |-> TRUE, fields |-> [k \in 1..K |-> Field(kinds[k])],
               phases |-> << [starts |-> starts,
                              waits |-> [r \in 1..6 |-> IF back THEN [k \in 1..K |-> K + 1 - k]
                                           ELSE LET s == IF SameOrder THEN steps[1] ELSE steps[r] IN Order(K, s[1], s[2])],
                              writes |-> [r \in 1..6 |-> [k \in 1..K |-> 0]]] >>]
Emit == p = 1 /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Make \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
====================================================================================
