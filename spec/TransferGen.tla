------------------------------- MODULE TransferGen -------------------------------
(* Generates histories of scatters and gathers (C07: States = FALSE, C08: TRUE). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS States, MaxOps, Kinds, MaxRanks, Sized   \* Sized: local arrays as the allocator makes them
SZ == INSTANCE Sizer
VARIABLES sc, p
One(X) == {RandomElement(X)}
Perm(X) == RandomElement({ q \in [1..Cardinality(X) -> X] : \A a, b \in 1..Cardinality(X) : a # b => q[a] # q[b] })
NRanks == (IF sc.kind = "tile" THEN 1 ELSE 6) * sc.layout[1] * sc.layout[2]
Layouts == { w \in (1..4) \X (1..4) : w[1]*w[2] <= MaxRanks }
Init == sc = [kind |-> ""] /\ p = 0
Setup == /\ p = 0 /\ p' = 1
         /\ \E k \in One(Kinds), w \in One(Layouts), v \in One({ x \in Layouts : x[1]*x[2] <= 4 }), nf \in One(1..3), no \in One(2..MaxOps), sd \in One(0..99999),
               po \in One({"random", "stay", "prio", "rr"}), sy \in One(BOOLEAN) :
              sc' = [kind |-> k, layout |-> IF k = "tile" THEN w ELSE v, nf |-> nf, no |-> no, seed |-> sd, policy |-> po, sync |-> sy,
                     fams |-> <<>>, ops |-> <<>>]
AxisSets == { <<"y","x">>, <<"x","y">>, <<"o","y","x">>, <<"y","o","x">>, <<"x","y","o">>, <<"o","x","y">>,
              <<"y","x">>, <<"o","y","x">>, <<"y">>, <<"x","o">>, <<"o">>, <<"x">>, <<"o","y","x","o">> }
AddFam ==
  /\ p >= 1 /\ Len(sc.fams) < sc.nf /\ p' = p + 1
  \* a family may repeat the dimensions of the last one: backwards with the same sizes (like = 1),
  \* with other sizes (2), or with the same sizes and another type, padding or layout in memory (3)
  /\ \E like \in One(1..6), ax0 \in One(AxisSets), fx0 \in One(0..1), fy0 \in One(0..1), m0 \in One(1..3), n0 \in One(1..2), z0 \in One(1..3) :
     \E ax \in {IF like > 3 \/ Len(sc.fams) = 0 THEN ax0
                ELSE LET D == sc.fams[Len(sc.fams)].dims L == Len(D)
                     IN [k \in 1..L |-> D[IF like = 1 THEN L + 1 - k ELSE k].axis]},
        par \in {IF like \in {1, 3} /\ Len(sc.fams) > 0 THEN sc.fams[Len(sc.fams)].par ELSE <<fx0, fy0, m0, n0, z0>>} :
     \E fx \in {par[1]}, fy \in {par[2]}, m \in {par[3]}, n \in {par[4]}, z \in {par[5]},
        wide \in One({"float64", "float32", "int32", "int64"}), narrow \in One({"int16", "int8", "uint8", "bool", "complex128", "float16", "complex64"}), wd \in One(1..4), sp \in One(1..3), gm \in One({"C", "F", "strided", "reversed", "inner"}), lm \in One({"C", "F", "strided", "reversed", "inner"}),
        pads \in One([1..5 -> (0..2) \X (0..2)]), lpads \in One([1..5 -> (0..2) \X (0..2)]), full \in One(1..3) :
       LET Dm(k) == [axis |-> ax[k], iface |-> IF ax[k] = "x" THEN fx ELSE IF ax[k] = "y" THEN fy ELSE z % 2,
                     cells |-> CASE ax[k] = "x" -> sc.layout[2]*m [] ax[k] = "y" -> sc.layout[1]*n [] OTHER -> z]
           \* no padding at all in a third of the arrays
           Z(q) == IF full = 1 THEN [k \in 1..5 |-> <<0,0>>] ELSE q
           Mine(k) == [axis |-> IF ax[k] # "o" THEN ax[k] ELSE IF \E j \in 1..(k-1) : ax[j] = "o" THEN "e" ELSE "z", iface |-> Dm(k).iface,
                       cells |-> CASE ax[k] = "x" -> m [] ax[k] = "y" -> n [] OTHER -> z]
           h == lpads[1][1] + lpads[2][1]
       IN sc' = [sc EXCEPT !.fams = Append(@, [par |-> par, dims |-> [k \in 1..Len(ax) |-> Dm(k)], dtype |-> IF wd = 1 THEN narrow ELSE wide, special |-> (sp = 1), gmem |-> gm, lmem |-> lm,
                    gpad |-> Z(pads), lpad |-> IF Sized THEN [k \in 1..5 |-> IF k > Len(ax) THEN <<0, 0>> ELSE << SZ!Before(Mine(k), h), SZ!Beyond(Mine(k), h) >>]
                                               ELSE Z(lpads), halo |-> IF Sized THEN h ELSE -1])]
Has(X, f, s) == \E k \in 1..Len(X) : X[k].fam = f /\ (X[k].dst = s \/ (s = "A2" /\ X[k].op = "scatter" /\ X[k].dst = "fresh")
                                                      \/ (s = "G2" /\ X[k].op = "gather" /\ X[k].dst = "fresh"))
Blank == [op |-> "", fam |-> 0, src |-> "", dst |-> "", names |-> <<>>, given |-> FALSE, pre |-> <<>>, time |-> "", recvTime |-> "", orders |-> <<>>, extra |-> TRUE, zero |-> FALSE]
AddOp ==
  /\ ~States /\ p >= 1 /\ Len(sc.fams) = sc.nf /\ Len(sc.ops) < sc.no /\ p' = p + 1
  /\ \E f \in One(1..sc.nf), c \in One(1..12), s2 \in One(BOOLEAN), d \in One(1..3), zero \in One(1..4) :
       LET gs == IF s2 /\ Has(sc.ops, f, "G2") THEN "G2" ELSE "G1"
           as == IF s2 /\ Has(sc.ops, f, "A2") THEN "A2" ELSE "A1"
           gd == IF d = 1 THEN "fresh" ELSE IF d = 2 /\ Has(sc.ops, f, "G2") THEN "G2" ELSE "G1"
           ad == IF d = 1 THEN "fresh" ELSE IF d = 2 /\ Has(sc.ops, f, "A2") THEN "A2" ELSE "A1"
           op == IF c <= 5 THEN [Blank EXCEPT !.op = "scatter", !.fam = f, !.src = gs, !.dst = ad]
                 ELSE IF c <= 9 THEN [Blank EXCEPT !.op = "gather", !.fam = f, !.src = as, !.dst = gd]
                 ELSE IF c <= 11 THEN [Blank EXCEPT !.op = "write", !.fam = f, !.dst = IF d = 1 THEN gs ELSE as, !.zero = (zero = 1)]
                 ELSE [Blank EXCEPT !.op = "refuse", !.fam = f]
       IN sc' = [sc EXCEPT !.ops = Append(@, op)]
Times == {"", "", "2016-08-01 00:15:00|julian", "0001-12-31 23:59:59|noleap", "2000-02-30 12:00:00|360_day"}
AddStateOp ==
  /\ States /\ p >= 1 /\ Len(sc.fams) = sc.nf /\ Len(sc.ops) < sc.no /\ p' = p + 1
  /\ \E F \in One(SUBSET (1..sc.nf)), c \in One(1..7), given \in One(BOOLEAN), t \in One(Times), rt \in One(Times), f \in One(1..sc.nf), d \in One(1..2), extra \in One(BOOLEAN), zero \in One(1..4) :
     \E names \in {TLCEval(Perm(F))}, pre \in {TLCEval([r \in 1..NRanks |-> Perm(RandomElement(SUBSET (1..sc.nf)))])},
        orders \in {TLCEval([r \in 1..NRanks |-> Perm(F)])} :
       LET b == [Blank EXCEPT !.names = names, !.given = given, !.time = t, !.recvTime = rt, !.fam = f, !.extra = extra]
           op == IF c <= 3 THEN [b EXCEPT !.op = "scatter_state", !.pre = pre]
                 ELSE IF c <= 6 THEN [b EXCEPT !.op = "gather_state", !.pre = << pre[1] >>, !.orders = orders]
                 ELSE [Blank EXCEPT !.op = "write", !.fam = f, !.dst = IF d = 1 THEN "G1" ELSE "A1", !.zero = (zero = 1)]
       IN sc' = [sc EXCEPT !.ops = Append(@, op)]
Emit == /\ p >= 1 /\ Len(sc.fams) = sc.nf /\ Len(sc.ops) = sc.no
        /\ p < 1000 /\ p' = 1000 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddFam \/ AddOp \/ AddStateOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
