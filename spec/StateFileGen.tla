------------------------------- MODULE StateFileGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
DimNames == << "x", "y_interface", "z", "land", "tile", "x_interface", "y", "z_soil" >>
VarNames == << "air_temperature", "u", "dust 2", "time_step", "Time", "zz-top", "units", "calendar", "a" >>
(* #n are strings with other than plain characters that the driver knows *)
Units == << "m", "", "K s^-1", "seconds", "days since 2000-01-01", "degrees", "1", "hours",
            " K", "Pa ", "none", "None", "1.0", "M", "#1", "#2", "#3", "#4" >>
Calendars == << "julian", "noleap", "360_day", "standard", "proleptic_gregorian", "all_leap" >>
Init == sc = [ops |-> <<>>] /\ p = 0
Setup == /\ p = 0 /\ p' = 1
         /\ \E n \in One(2..5), len \in One([1..8 -> 1..4]), wh \in One({"path", "url", "remote"}) :
              sc' = [no |-> n, len |-> len, where |-> wh, ops |-> <<>>]
Has(f) == \E k \in 1..Len(sc.ops) : sc.ops[k].op = "write" /\ sc.ops[k].file = f /\ sc.ops[k].time # <<>> /\ sc.ops[k].kind = ""
Blank == [op |-> "", file |-> 1, time |-> <<>>, vars |-> <<>>, kind |-> ""]
AddVar(f) == \E k \in One(1..Len(VarNames)), nd \in One(0..4), w \in One([1..4 -> 1..8]), u \in One(1..Len(Units)), dt \in One({"float64", "float32", "int32", "int64", "int16", "int8", "bool", ">f8", ">f4", ">i4"}),
        mem \in One({"C", "F", "strided", "reversed", "inner"}), pad \in One([1..4 -> (0..2) \X (0..2)]), full \in One(BOOLEAN), sd \in One(0..99999), sp \in One(BOOLEAN) :
        LET q == SelectSeq([j \in 1..nd |-> IF \E i \in 1..(j-1) : w[i] = w[j] THEN 0 ELSE w[j]], LAMBDA v : v > 0)
            o == sc.ops[f] IN
        IF \E j \in 1..Len(o.vars) : o.vars[j].name = VarNames[k] THEN sc' = sc
        ELSE sc' = [sc EXCEPT !.ops[f].vars = Append(@,
               [name |-> VarNames[k], units |-> Units[u], dtype |-> dt, mem |-> mem, seed |-> sd, special |-> sp,
                dims |-> [j \in 1..Len(q) |-> [name |-> DimNames[q[j]], extent |-> sc.len[q[j]], pad |-> IF full THEN <<0, 0>> ELSE pad[j]]]])]
(* p: 1 choose an operation, 2.. variables still to add to the last one *)
AddOp ==
  /\ p = 1 /\ Len(sc.ops) < sc.no
  /\ \E c \in One(1..12), f \in One(1..2), y \in One({1, 999, 1900, 2000, 2016, 9999}), mo \in One(1..12), d \in One(1..28), s \in One(0..86399), us \in One({0, 0, 250000, 500000}), cal \in One(1..6), nv \in One(0..4),
        cannot \in One({"", "complex", "too large", "two lengths"}), bad \in One({"two times", "one time in a list", "number", "duration", "text", "no units of time"}) :
       LET t == << y, mo, d, s, cal >> \o (IF us = 0 THEN <<>> ELSE << us >>) IN
       \* what a refused write left of the file
       IF sc.ops # <<>> /\ LET o == sc.ops[Len(sc.ops)] IN o.op = "write" /\ (o.kind # "" \/ o.time = <<>>) /\ Has(o.file)
         THEN sc' = [sc EXCEPT !.ops = Append(@, [Blank EXCEPT !.op = "read", !.file = sc.ops[Len(sc.ops)].file])] /\ p' = 1
       ELSE IF c <= 4 \/ (c <= 7 /\ ~Has(f)) THEN sc' = [sc EXCEPT !.ops = Append(@, [Blank EXCEPT !.op = "write", !.file = f, !.time = t])] /\ p' = 2 + nv
       ELSE IF c <= 7 THEN sc' = [sc EXCEPT !.ops = Append(@, [Blank EXCEPT !.op = "read", !.file = f])] /\ p' = 1
       ELSE IF c \in 8..10 THEN sc' = [sc EXCEPT !.ops = Append(@, [Blank EXCEPT !.op = "write", !.file = f, !.kind = cannot, !.time = IF cannot = "" THEN <<>> ELSE t])] /\ p' = 2 + nv
       ELSE sc' = [sc EXCEPT !.ops = Append(@, [Blank EXCEPT !.op = "read other", !.kind = bad])] /\ p' = 1
More == p >= 2 /\ (IF p = 2 THEN sc' = sc ELSE AddVar(Len(sc.ops))) /\ p' = IF p = 2 THEN 1 ELSE p - 1
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 0-1 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ More \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
