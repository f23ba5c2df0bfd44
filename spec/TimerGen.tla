-------------------------------- MODULE TimerGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
Names == << "a", "mainloop", "halo update", "", "aa", "A", "a ", "clock-4", "_total", "total", "times", "pack", "unpack",
            "Isend", "Irecv", "0", "x y", "a.b", "a/b", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l" >>
Init == sc = [ops |-> <<>>] /\ p = 0
Setup == p = 0 /\ p' = 1 /\ \E n \in One(4..50), calm \in One(BOOLEAN), many \in One({1, 2, 3, 3, 5, 9, 30}) : sc' = [no |-> IF many = 30 THEN 3 * n ELSE n, calm |-> calm, nn |-> many, ops |-> <<>>]
Kind(c) == CASE c <= 4 -> "start" [] c <= 9 -> "stop" [] c <= 12 -> "enter" [] c <= 14 -> "leave" [] c = 15 -> "raise" [] c = 16 -> "raise in"
           [] c = 17 -> "reset" [] c = 18 -> "disable" [] c = 19 -> "enable" [] c = 20 -> "scribble" [] OTHER -> "tick"
AddOp == /\ p = 1 /\ Len(sc.ops) < sc.no /\ UNCHANGED p
         /\ \E c \in One(1..22), n \in One(1..sc.nn), w \in One(1..8), k \in One({0, 1, 2, 5, 10, 100, 1000}), b \in One(1..5) :
              sc' = [sc EXCEPT !.ops = Append(@, [op |-> Kind(IF sc.nn > 8 /\ c \in {9, 8, 17} THEN 2 ELSE IF sc.calm /\ c \in {18, 15} THEN 1 ELSE c), name |-> Names[n],
                       timer |-> IF w = 8 THEN 3 ELSE IF w = 7 THEN 2 ELSE 1, k |-> k, back |-> IF b = 1 THEN 2 ELSE 1])]
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
