-------------------------------- MODULE CaptureGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES sc, p, open       \* open captures: their streams
One(X) == {RandomElement(X)}
Init == sc = [ops |-> <<>>] /\ p = 0 /\ open = <<>>
Setup == p = 0 /\ p' = 1 /\ UNCHANGED open /\ \E n \in One(4..30), k \in One({"append", "plain", "binary"}), deep \in One(1..4) : sc' = [no |-> n, kind |-> k, deep |-> deep, ops |-> <<>>]
Add(o) == sc' = [sc EXCEPT !.ops = Append(@, o)]
Tops == { k \in 1..Len(open) : \A j \in (k+1)..Len(open) : open[j] # open[k] }
AddOp == /\ p = 1 /\ Len(sc.ops) < sc.no /\ UNCHANGED p
         /\ \E c \in One(1..12), s \in One(1..2), how \in One({"fd", "stream", "fork", "exec", "fd", "stream", "print"}), size \in One({0, 1, 5, 30, 30, 4096, 70000, 200000}), exc \in One(BOOLEAN), w \in One(1..20) :
            LET o == [op |-> "write", stream |-> s, how |-> how, size |-> size, exc |-> FALSE, k |-> 0] IN
            IF c <= 4 /\ Len(open) < sc.deep THEN Add([o EXCEPT !.op = "enter"]) /\ open' = Append(open, s)
            ELSE IF c <= 8 /\ open # <<>> THEN
               LET k == IF w <= Len(open) /\ w \in Tops THEN w ELSE Len(open) IN
               Add([o EXCEPT !.op = "leave", !.stream = open[k], !.exc = exc, !.k = k]) /\ open' = SubSeq(open, 1, k-1) \o SubSeq(open, k+1, Len(open))
            ELSE Add(o) /\ UNCHANGED open
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ UNCHANGED << sc, open >> /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p, open>>
=================================================================================
