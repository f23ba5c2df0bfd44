---------------------------------- MODULE RotateGen ----------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
Init == sc = [ops |-> <<>>] /\ p = 0
Kinds == { <<"y","x">>, <<"x","y">>, <<"o","y","x">>, <<"x","o","y">>, <<"y","x","o">>, <<"o","x","o","y">>, <<"y","x">>, <<"x","y","o">>,
           <<"x">>, <<"y">>, <<"y","o">>, <<"o","x">>, <<"o">> }
Setup ==
  /\ p = 0 /\ p' = 1
  /\ \E k \in One(Kinds) : \E s \in One([1..Len(k) -> 1..4]), dx \in One(0..1), dy \in One(0..1), w \in One(1..3), dt \in One({"float64", "float32", "int32", "int64", "int16", "complex128", "float16"}), sp \in One(1..3),
        mem \in One({"C", "F", "strided", "reversed", "inner"}), no \in One(2..7) :
       LET grown == [j \in 1..Len(k) |-> s[j] + (IF k[j] = "x" THEN dx ELSE IF k[j] = "y" THEN dy ELSE 0)]
       IN sc' = [axes |-> k, shapes |-> IF w = 1 THEN << s, grown >> ELSE << s, s >>, dtype |-> dt, special |-> (sp = 1), mem |-> mem, no |-> no, ops |-> <<>>]
AddOp ==
  /\ p = 1 /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E o \in One({"scalar", "vector", "vector", "inplace", "inplace", "boundary"}), n \in One(-9..9), L \in One(1..3), r \in One(0..53), b \in One(0..7),
        nm \in One([1..4 -> 0..1]) :
       sc' = [sc EXCEPT !.ops = Append(@, [op |-> IF sc.shapes[1] # sc.shapes[2] /\ o \in {"inplace", "boundary"} THEN "vector" ELSE o,
                                           n |-> n, L |-> L, rank |-> r % (6*L*L), bt |-> b, names |-> nm])]
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
