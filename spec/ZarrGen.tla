---------------------------------- MODULE ZarrGen ----------------------------------
(* Histories of states stored by a monitor (C14; with Changes also C15: the last state
   differs from the earlier ones).                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Changes, Alone, MaxRanks
VARIABLES sc, p
One(X) == {RandomElement(X)}
Layouts == { w \in (1..4) \X (1..4) : 6*w[1]*w[2] <= MaxRanks }
AxisSets == { <<"y","x">>, <<"x","y">>, <<"o","y","x">>, <<"y","o","x">>, <<"x","y","o">>, <<"o","x","y">>, <<"y","x","o">>,
              <<"o","y","x","o">>, <<"y","x">>, <<"y","x">>, <<"o">>, <<"y","o">>, <<"x">> }
Calendars == {"julian", "noleap", "360_day", "standard", "proleptic_gregorian", "all_leap"}
Init == sc = [fams |-> <<>>, rows |-> <<>>] /\ p = 0
Setup ==
  /\ p = 0 /\ p' = 1
  /\ \E w \in One(Layouts), nf \in One(0..3), few \in One(1..4), many \in One(1..24), sd \in One(0..99999), po \in One({"random", "stay", "prio", "rr"}), sy \in One(BOOLEAN),
        st \in One({"dict", "dict", "dict", "dir"}), cal \in One(Calendars), rk \in One(0..5), mode \in One({"w", "w", "w-", "a"}), old \in One(BOOLEAN), one \in One(BOOLEAN), second \in One(0..3) :
     LET rows == IF many <= 12 /\ w[1]*w[2] <= 2 /\ nf <= 2 THEN many ELSE few IN
       sc' = [layout |-> w, nf |-> IF Changes /\ nf = 0 THEN 1 ELSE nf, nrows |-> rows, seed |-> sd, policy |-> po, sync |-> sy, backing |-> st,
              calendar |-> cal, alone |-> Alone, one |-> one (* all states are one dictionary, changed in place *), mode |-> mode,
              \* a second monitor stores other data of the same names elsewhere: 1 before, 2 after every state of the first
              second |-> second, old |-> old /\ mode = "w" (* the store holds something that is to go *), fams |-> <<>>, rows |-> <<>>, change |-> "none", target |-> 1, other |-> ""]
AddFam ==
  /\ p = 1 /\ Len(sc.fams) < sc.nf /\ p' = p
  /\ \E ax \in One(AxisSets), fx \in One(0..1), fy \in One(0..1), m \in One(1..3), n \in One(1..2), z \in One(1..3), fz \in One(0..1),
        wide \in One({"float64", "float32", "int32", "int64"}), narrow \in One({"int16", "int8", "uint8", "float16", "complex128", ">f8", ">i4", "uint16", "bool", ">f4"}), wd \in One(1..3), sp \in One(1..3), mem \in One({"C", "F", "strided", "reversed", "inner"}), pads \in One([1..4 -> (0..2) \X (0..2)]), full \in One(1..3), same \in One(0..3), zero \in One(1..4) :
       LET Dm(k) == [axis |-> ax[k], iface |-> IF ax[k] = "x" THEN fx ELSE IF ax[k] = "y" THEN fy ELSE fz,
                     cells |-> CASE ax[k] = "x" -> sc.layout[2]*m [] ax[k] = "y" -> sc.layout[1]*n [] OTHER -> z]
       IN sc' = [sc EXCEPT !.fams = Append(@, [dims |-> [k \in 1..Len(ax) |-> Dm(k)], dtype |-> IF wd = 1 THEN narrow ELSE wide, special |-> (sp = 1), mem |-> mem,
                    \* 1: one quantity serves all rows, 2: one array does; zero: some rows hold only zeros
                    same |-> same, zero |-> zero = 1,
                    pad |-> IF full = 1 THEN [k \in 1..4 |-> <<0,0>>] ELSE pads])]
(* << year, month, day, second of the day >> *)
AddRow ==
  /\ p = 1 /\ Len(sc.fams) = sc.nf /\ Len(sc.rows) < sc.nrows /\ p' = p
  /\ \E y \in One({1, 999, 1899, 1900, 2000, 2016, 2016, 2100}), mo \in One(1..12), d \in One(1..28), s \in One(0..86399), near \in One(1..3), dt \in One(1..5400), half \in One(1..4) :
       LET t == IF Len(sc.rows) = 0 \/ near = 1 THEN << y, mo, d, s >>
                ELSE LET l == sc.rows[Len(sc.rows)] IN << l[1], l[2], l[3], (l[4] + dt) % 86400 >>
       IN sc' = [sc EXCEPT !.rows = Append(@, IF half = 1 THEN Append(t, 500000) ELSE t)]
Change ==
  /\ p = 1 /\ Len(sc.fams) = sc.nf /\ Len(sc.rows) = sc.nrows /\ p' = 2
  /\ IF ~Changes THEN sc' = sc
     ELSE \E c \in One({"extra", "missing", "no time", "renamed", "units", "dims", "calendar", "cleared units", "units case", "swapped", "permuted"}), f \in One(1..sc.nf), o \in One(Calendars \ {sc.calendar}) :
            \* only names are checked on every rank
            sc' = [sc EXCEPT !.change = IF Alone \/ c \in {"extra", "missing", "no time", "renamed"} THEN c ELSE "extra", !.target = f, !.other = o]
Emit == p = 2 /\ p' = 3 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddFam \/ AddRow \/ Change \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
