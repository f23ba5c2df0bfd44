--------------------------------- MODULE SizerGen ---------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
Extras == << "land", "radiation", "tracer", "x_soil" >>
Init == sc = [ops |-> <<>>] /\ p = 0
Setup ==
  /\ p = 0 /\ p' = 1
  /\ \E ly \in One(1..5), lx \in One(1..5), my \in One({1, 2, 3, 4, 5, 8, 48}), mx \in One({1, 2, 3, 4, 6, 7, 96}), nz \in One(1..6), h \in One({0, 1, 2, 3, 3, 4, 7}),
        ex \in One([1..4 -> 0..4]), how \in One({"params", "params", "namelist"}), part \in One(BOOLEAN), rk \in One(0..24), nops \in One(1..6), be \in One(BOOLEAN), two \in One(BOOLEAN) :
       sc' = [layout |-> << ly, lx >>, cells |-> << my, mx >>, nz |-> nz, how |-> how, halo |-> IF how = "namelist" THEN 3 ELSE h,
              extra |-> IF how = "namelist" THEN << 0, 0, 0, 0 >> ELSE ex, part |-> part, rank |-> IF part THEN rk % (ly*lx) ELSE 0, no |-> nops, backend |-> be, two |-> two, ops |-> <<>>]
(* dims in any order, with no dimension twice *)
Names == << [axis |-> "y", iface |-> 0, name |-> "y"], [axis |-> "y", iface |-> 1, name |-> "y_interface"],
            [axis |-> "x", iface |-> 0, name |-> "x"], [axis |-> "x", iface |-> 1, name |-> "x_interface"],
            [axis |-> "z", iface |-> 0, name |-> "z"], [axis |-> "z", iface |-> 1, name |-> "z_interface"],
            [axis |-> "e", iface |-> 0, name |-> Extras[1]], [axis |-> "e", iface |-> 0, name |-> Extras[2]],
            [axis |-> "e", iface |-> 0, name |-> Extras[3]], [axis |-> "e", iface |-> 0, name |-> Extras[4]] >>
Cells(k) == CASE k <= 2 -> sc.cells[1] [] k <= 4 -> sc.cells[2] [] k <= 6 -> sc.nz [] OTHER -> sc.extra[k - 6]
(* extra dimensions of length 0 are those the sizer does not have *)
Usable == { k \in 1..10 : k <= 6 \/ sc.extra[k - 6] > 0 }
Pick(w) == LET ok(k) == w[k] \in Usable /\ \A j \in 1..(k-1) : w[j] # w[k]
           IN SelectSeq([k \in 1..Len(w) |-> IF ok(k) THEN w[k] ELSE 0], LAMBDA v : v > 0)
AddOp ==
  /\ p = 1 /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E n \in One(1..5) : \E w \in One([1..n -> 1..10]), fn \in One({"zeros", "ones", "empty"}),
        dt \in One({"", "float64", "float32", "int32", "int64", "bool", "int8", "uint16", "complex128", "float16", ">f8", ">i4"}), as \in One({"dtype", "name", "python", "type"}), u \in One({"m", "", "K s^-1"}), list \in One(BOOLEAN) :
       LET q == TLCEval(Pick(w)) IN
       sc' = [sc EXCEPT !.ops = Append(@, [fn |-> fn, dtype |-> dt, as |-> as, units |-> u, list |-> list,
                                           dims |-> [k \in 1..Len(q) |-> [axis |-> Names[q[k]].axis, iface |-> Names[q[k]].iface, cells |-> Cells(q[k]), name |-> Names[q[k]].name]]])]
(* the same allocation again: every allocation has memory of its own *)
AddSame ==
  /\ p = 1 /\ Len(sc.ops) < sc.no /\ sc.ops # <<>> /\ p' = p
  /\ \E j \in One(1..Len(sc.ops)), fn \in One({"zeros", "ones", "empty"}), same \in One(BOOLEAN) :
       sc' = [sc EXCEPT !.ops = Append(@, [sc.ops[j] EXCEPT !.fn = IF same THEN @ ELSE fn])]
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ AddSame \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
