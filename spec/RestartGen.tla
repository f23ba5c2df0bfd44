-------------------------------- MODULE RestartGen --------------------------------
(* Directories of restart files and ways of opening them (C17). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxRanks
VARIABLES sc, p
Table == JsonDeserialize(IOEnv.TABLE)
One(X) == {RandomElement(X)}
Layouts == { w \in (1..4) \X (1..4) : 6*w[1]*w[2] <= MaxRanks }
Init == sc = [vars |-> <<>>] /\ p = 0
(* the last day of a month in a calendar: 30 days, Julian, Gregorian, without leap years *)
LastDay(y, mo, cal) == CASE cal = 1 -> 30
  [] cal # 1 /\ mo = 2 -> IF cal # 4 /\ y % 4 = 0 THEN 29 ELSE 28
  [] OTHER -> IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
\* a year, and a month, day and second of it; now and then the last day of the month
Edge(t, cal, last) == IF last = 1 THEN << t[1], t[2], LastDay(t[1], t[2], cal), t[4] >> ELSE t
Times == { << y, mo, d, s >> : y \in {1, 1999, 2016}, mo \in 1..12, d \in 1..28, s \in {0, 1, 900, 3661, 43205, 50459, 86399} }
Setup ==
  /\ p = 0 /\ p' = 1
  \* now and then as many ranks as nine a tile
  /\ \E w0 \in One(Layouts), huge \in One(1..12), w9 \in One({<<3, 3>>, <<2, 3>>, <<5, 1>>, <<1, 7>>, <<2, 4>>}) :
     \E w \in {IF huge = 1 THEN w9 ELSE w0}, m \in One([1..4 -> 1..3]), nv \in One(1..5), lb \in One(0..2), co \in One(BOOLEAN), t \in One(Times), cal \in One(1..4),
        sfc \in One(BOOLEAN), phy \in One(BOOLEAN), tr \in One(BOOLEAN), sel \in One(BOOLEAN), given \in One(BOOLEAN), rt \in One(BOOLEAN),
        po \in One({"random", "stay", "prio", "rr"}), sy \in One(BOOLEAN), sd \in One(0..99999), nc4 \in One(BOOLEAN), at \in One({"path", "url", "remote"}), slash \in One(BOOLEAN),
        st \in One(Times), sameYear \in One(BOOLEAN), last \in One(1..4) :
       sc' = [layout |-> w, n |-> m, nv |-> nv, label |-> << "", "20160801.001500", "A" >>[lb+1], coupler |-> co, time |-> Edge(t, cal, last),
              \* the run may have started before or after, in the same year as often as not
              start |-> IF sameYear THEN << t[1], st[2], st[3], st[4] >> ELSE st, calendar |-> cal,
              sfc |-> sfc, phy |-> phy, tracers |-> tr, select |-> sel, only |-> <<>>, given |-> given, recvTime |-> rt,
              policy |-> po, sync |-> sy, seed |-> sd, netcdf4 |-> nc4, at |-> at, slash |-> slash, vars |-> <<>>]
(* n: cells of a rank along y and x, levels, soil levels *)
Dim(name) ==
  LET y == sc.layout[1]*sc.n[1]  x == sc.layout[2]*sc.n[2]  D(a, f, c) == [axis |-> a, iface |-> f, cells |-> c, name |-> name] IN
  CASE name = "y" -> D("y", 0, y) [] name = "y_interface" -> D("y", 1, y) [] name = "x" -> D("x", 0, x) [] name = "x_interface" -> D("x", 1, x)
    [] name = "z" -> D("o", 0, sc.n[3]) [] name = "z_interface" -> D("o", 1, sc.n[3]) [] OTHER -> D("o", 0, sc.n[4])
Tracers == << [name |-> "specific_humidity", file |-> "sphum", units |-> "kg/kg", dims |-> << "z", "y", "x" >>],
              [name |-> "turbulent_kinetic_energy", file |-> "sgs_tke", units |-> "m**2/s**2", dims |-> << "z_interface", "y_interface", "x" >>],
              [name |-> "tracer_flux", file |-> "tflx", units |-> "", dims |-> << "y", "x_interface" >>] >>
AddVar ==
  /\ p = 1 /\ Len(sc.vars) < sc.nv /\ p' = p
  /\ \E k \in One(1..Len(Table)), k2 \in One(1..Len(Table)), c \in One(1..6), tr \in One(1..3), f \in One(1..5), dt \in One({"float32", "float64"}), lp \in One([1..3 -> (0..2) \X (0..2)]), pre \in One(BOOLEAN), un \in One({"none", "", "wrong"}) :
       LET \* variables with interfaces or soil levels more often
           kk == IF \A q \in {"x_interface", "y_interface", "z_interface", "z_soil"} : \A j \in 1..Len(Table[k].dims) : Table[k].dims[j] # q THEN k2 ELSE k
           e == IF c = 1 THEN Tracers[tr] ELSE IF c = 2 THEN [name |-> "", file |-> "mystery", units |-> "", dims |-> << "y", "x" >>] ELSE Table[kk]
           where == IF c = 1 THEN 3 ELSE IF (f = 4 /\ ~sc.sfc) \/ (f = 5 /\ ~sc.phy) THEN 1 ELSE f
       IN sc' = IF \E j \in 1..Len(sc.vars) : sc.vars[j].file = e.file THEN [sc EXCEPT !.nv = @ - 1]
                ELSE [sc EXCEPT !.vars = Append(@, [name |-> e.name, file |-> e.file, units |-> e.units, tracer |-> c = 1, where |-> where, dtype |-> dt, pre |-> pre, lpad |-> lp, fileUnits |-> un,
                                                    dims |-> [d \in 1..Len(e.dims) |-> Dim(e.dims[d])]])]
Select ==
  /\ p = 1 /\ Len(sc.vars) = sc.nv /\ p' = 2
  /\ \E S \in One(SUBSET (1..sc.nv)), tm \in One(BOOLEAN), more \in One(BOOLEAN) :
       LET q == SelectSeq([j \in 1..sc.nv |-> IF j \in S THEN sc.vars[j].name ELSE ""], LAMBDA v : v # "")
       IN sc' = [sc EXCEPT !.only = (IF tm THEN << "time" >> ELSE <<>>) \o q \o (IF more THEN << "vertical_vorticity" >> ELSE <<>>)]
Emit == p = 2 /\ p' = 3 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddVar \/ Select \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
