-------------------------------- MODULE NudgeGen --------------------------------
EXTENDS Nudge, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
VarNames == << "air_temperature", "x_wind", "specific_humidity", "pressure", "snow" >>
Units == << "K", "m/s", "", "Pa", "mm s^-1" >>
DimNames == << "z", "y", "x", "y_interface", "x_interface", "z_soil", "tracer" >>
(* timescales and steps in 64ths of a second *)
Scales == {64, 32, 16, 1, 128, 512, 64*3, 64*600, 64*3600, 64*86400, 64*10800, 64*86400*2, 64*86400 + 16, 64*90000, 96, 160, 33}
Steps == {64, 32, 1, 16, 64*900, 64*225, 64*3600, 64*86400, 64*90000, 64*86400 + 64, 64*450 + 32, 0, 33, 128}
Two == {64, 32, 16, 128, 512, 1024, 4096}
Init == sc = [vars |-> <<>>, ops |-> <<>>] /\ p = 0
Setup == /\ p = 0 /\ p' = 1
         /\ \E nv \in One(1..5), no \in One(1..4), sd \in One(0..99999), tm \in One(BOOLEAN) :
              sc' = [nv |-> nv, no |-> no, vars |-> <<>>, ops |-> <<>>, seed |-> sd, time |-> tm]
AddVar == /\ p = 1 /\ Len(sc.vars) < sc.nv /\ UNCHANGED p
          /\ \E nd \in One(0..4), w \in One([1..4 -> 1..7]), e \in One([1..4 -> 0..4]), pad \in One([1..4 -> (0..2) \X (0..2)]), rpad \in One([1..4 -> (0..2) \X (0..2)]),
                wide \in One(BOOLEAN), rdt \in One({"float64", "float32"}), mem \in One({"C", "F", "strided", "reversed", "inner"}), pc \in One(1..4) :
              LET k == Len(sc.vars) + 1
                  q == SelectSeq([j \in 1..nd |-> IF \E i \in 1..(j-1) : w[i] = w[j] THEN 0 ELSE j], LAMBDA v : v > 0) IN
              sc' = [sc EXCEPT !.vars = Append(@, [name |-> VarNames[k], units |-> Units[k],
                       dims |-> [j \in 1..Len(q) |-> [name |-> DimNames[w[q[j]]], extent |-> IF e[q[j]] = 0 /\ nd < 4 THEN 2 ELSE IF e[q[j]] = 0 THEN 1 ELSE e[q[j]], pad |-> IF pc = 1 THEN <<0, 0>> ELSE pad[q[j]], rpad |-> IF pc = 2 THEN <<0, 0>> ELSE rpad[q[j]]]],
                       dtype |-> IF wide THEN "float64" ELSE "float32", rdtype |-> rdt, mem |-> mem])]
Scale(k, n) == IF sc.vars[k].dtype = "float32" \/ sc.vars[k].rdtype = "float32" THEN RandomElement(Two) ELSE RandomElement(Scales)
AddOp == /\ p = 1 /\ Len(sc.vars) = sc.nv /\ Len(sc.ops) < sc.no /\ UNCHANGED p
         /\ \E pick \in One([1..5 -> 1..3]), c \in One(1..8), first \in One(1..5), dt \in One(Steps), lost \in One(1..5), from \in One({"state", "reference", "both"}), self \in One(1..6), narrow \in One(Two), wh \in One([1..5 -> Scales]), nr \in One([1..5 -> Two]) :
              LET order == [j \in 1..sc.nv |-> ((j + first) % sc.nv) + 1]
                  on == SelectSeq(order, LAMBDA k : pick[k] > 1 /\ sc.vars[k].dims # <<>>)
                  slim(k) == sc.vars[k].dtype = "float32" \/ sc.vars[k].rdtype = "float32"
                  anySlim == \E k \in 1..sc.nv : slim(k) IN
              sc' = [sc EXCEPT !.ops = Append(@, [op |-> IF c <= 3 THEN "tendencies" ELSE "apply",
                       ts |-> [j \in 1..Len(on) |-> [name |-> sc.vars[on[j]].name, scale |-> IF slim(on[j]) THEN nr[j] ELSE wh[j]]],
                       dt |-> IF anySlim THEN narrow ELSE dt, self |-> (self = 1),
                       lost |-> IF c % 4 = 0 /\ lost <= sc.nv THEN << sc.vars[lost].name >> ELSE IF c = 7 THEN << "unknown" >> ELSE <<>>,
                       from |-> from])]
Emit == p = 1 /\ Len(sc.vars) = sc.nv /\ Len(sc.ops) = sc.no /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddVar \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
