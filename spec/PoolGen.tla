--------------------------------- MODULE PoolGen ---------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES sc, p, h      \* h: open blocks << number, array (0 none), kind, written >>
One(X) == {RandomElement(X)}
Shapes == << <<2, 3>>, <<3, 2>>, <<6>>, <<4>>, <<2, 2>>, <<1, 2, 3>>, <<2, 3, 2>>, <<1, 1>>,
             <<2>>, <<1>>, <<3, 1>>, <<1, 4>>, <<2, 1, 3>>, <<2, 2, 1, 3>>, <<2, 3, 2, 2>>, <<12, 9>>, <<2, 2, 2, 1, 2>>, <<40, 6>> >>
DTypes == << "float64", "float32", "int32", "int64", "uint32", ">f8", "uint64", ">i4",
             "complex128", "int8", "bool", "complex64", "float16", "uint8", "int16", "uint16" >>
Layouts == << "C", "F", "strided", "reversed", "transposed", "part", "C part", "rows reversed", "all reversed", "swapped", "rolled", "repeated", "columns" >>
Init == sc = [ops |-> <<>>] /\ p = 0 /\ h = <<>>
Setup == p = 0 /\ p' = 1 /\ UNCHANGED h /\ \E n \in One(6..52), na \in One(2..6), ns \in One(1..5), nd \in One({1, 2, 3, 4, 8}), from \in One(0..15), shapes \in One(0..17), special \in One(1..4), nl \in One(1..2), deep \in One(1..5) :
   \E arrs \in One([1..6 -> [shape : 1..ns, dtype : 1..nd, layout : 1..13, easy : 1..7]]) :
     sc' = [no |-> n, ops |-> <<>>, deep |-> deep = 1, ns |-> IF deep = 1 THEN 1 ELSE ns, nd |-> IF deep = 1 THEN 1 ELSE nd, from |-> from, shapes |-> shapes, special |-> special = 1,
            arrays |-> [k \in 1..na |-> [shape |-> Shapes[(((IF deep = 1 THEN 1 ELSE arrs[k].shape) + shapes) % Len(Shapes)) + 1], dtype |-> DTypes[(((IF deep = 1 THEN 1 ELSE arrs[k].dtype) + from) % Len(DTypes)) + 1], layout |-> Layouts[IF nl = 1 THEN arrs[k].easy ELSE arrs[k].layout]]]]
Blank == [op |-> "", no |-> 0, array |-> 0, kind |-> "", shape |-> <<>>, dtype |-> "", alloc |-> 1, timer |-> "no", exc |-> FALSE, zero |-> FALSE]
Put(o) == sc' = [sc EXCEPT !.ops = Append(@, o)]
Busy(a, kind) == \E k \in 1..Len(h) : h[k][2] = a /\ (kind = "recv" \/ h[k][3] = "recv")
AddOp == /\ p = 1 /\ Len(sc.ops) < sc.no /\ UNCHANGED p
         /\ \E c \in One(1..20), a \in One(0..Len(sc.arrays)), like \in One({"send", "recv", "array"}), w \in One(1..100), any \in One(1..3), exc \in One(1..6), zero \in One(1..5), tm \in One({"no", "on", "off", "null"}), s \in One(1..sc.ns), d \in One(1..sc.nd) :
              LET kind == IF sc.deep /\ (c % 2 = 0) THEN "array" ELSE like   al == IF sc.deep THEN 1 ELSE any   v == (w % (IF h = <<>> THEN 1 ELSE Len(h))) + 1   num == Len(sc.ops) + 1 IN
              IF (c <= (IF ~sc.deep THEN 8 ELSE IF (Len(sc.ops) \div 16) % 2 = 0 THEN 18 ELSE 3) \/ h = <<>>) /\ Len(h) < (IF sc.deep THEN 12 ELSE 6) THEN
                 IF (kind # "array" /\ Busy(a, kind) /\ a # 0) \/ (kind = "recv" /\ a # 0 /\ sc.arrays[IF a = 0 THEN 1 ELSE a].layout = "repeated") THEN Put([Blank EXCEPT !.op = "nothing"]) /\ UNCHANGED h
                 ELSE /\ Put([Blank EXCEPT !.op = "acquire", !.no = num, !.kind = kind, !.array = IF kind = "array" THEN 0 ELSE a, !.shape = Shapes[((s + sc.shapes) % Len(Shapes)) + 1], !.dtype = DTypes[((d + sc.from) % Len(DTypes)) + 1], !.alloc = al, !.timer = tm])
                      /\ h' = Append(h, << num, IF kind = "array" THEN 0 ELSE a, kind, kind = "send" \/ (kind = "recv" /\ a = 0) >>)
              ELSE IF c <= 13 /\ \E k \in 1..Len(h) : h[k][3] # "send" /\ ~(h[k][3] = "recv" /\ h[k][2] = 0) THEN
                 LET ks == { k \in 1..Len(h) : h[k][3] # "send" /\ ~(h[k][3] = "recv" /\ h[k][2] = 0) }
                     k == IF v \in ks THEN v ELSE CHOOSE k \in ks : TRUE IN
                 Put([Blank EXCEPT !.op = "write", !.no = h[k][1], !.zero = (zero = 1)]) /\ h' = [h EXCEPT ![k][4] = TRUE]
              ELSE IF h # <<>> THEN
                 LET k == IF c % 2 = 0 THEN Len(h) ELSE v IN
                 IF ~h[k][4] /\ exc > 1 /\ h[k][3] = "recv" THEN Put([Blank EXCEPT !.op = "write", !.no = h[k][1], !.zero = (zero = 1)]) /\ h' = [h EXCEPT ![k][4] = TRUE]
                 ELSE Put([Blank EXCEPT !.op = "release", !.no = h[k][1], !.exc = (exc = 1)]) /\ h' = SubSeq(h, 1, k-1) \o SubSeq(h, k+1, Len(h))
              ELSE Put([Blank EXCEPT !.op = "nothing"]) /\ UNCHANGED h
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ UNCHANGED << sc, h >> /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p, h>>
=================================================================================
