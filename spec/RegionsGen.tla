-------------------------------- MODULE RegionsGen --------------------------------
(* Generates histories of requests for the sent and received parts of arrays, and of
   writes to the arrays and to the parts.                                           *)
EXTENDS Regions, FiniteSets, TLC, Json
C == INSTANCE Cube
CONSTANTS MaxL, Steps
VARIABLES sc, p
One(S) == {RandomElement(S)}
Init == sc = <<>> /\ p = 0
Setup == /\ p = 0 /\ p' = 1
         /\ \E L \in One(1..MaxL), ly \in One(1..MaxL), lx \in One(1..MaxL), nq \in One(2..3) :
              sc' = [layouts |-> << <<L, L>>, <<ly, lx>> >>, nq |-> nq, qs |-> <<>>, ops |-> <<>>]
AxisSets == { <<"y","x">>, <<"x","y">>, <<"o","y","x">>, <<"y","o","x">>, <<"x","y","o">>, <<"o","x","y">>,
              <<"o","y","x","o">>, <<"x">>, <<"o","y">>, <<"o">> }
AddQ ==
  /\ p >= 1 /\ Len(sc.qs) < sc.nq /\ p' = p + 1
  /\ \E ax0 \in One(AxisSets), f \in One([1..4 -> 0..1]), o0 \in One([1..4 -> 0..3]), e0 \in One([1..4 -> 1..4]), h0 \in One([1..4 -> 0..3]), big \in One(1..4),
        like \in One(1..3), dt \in One({"float64", "float32", "int32", "int64", "int16", "uint8", "complex128"}), sp \in One(1..3), m \in One({"C", "F", "strided", "reversed", "inner"}) :
     \E o \in {[k \in 1..4 |-> IF big = 1 /\ k <= 2 THEN o0[k] + 4 ELSE o0[k]]}, e \in {[k \in 1..4 |-> IF big = 1 /\ k <= 2 THEN e0[k] + 4 ELSE e0[k]]}, h \in {[k \in 1..4 |-> IF big = 1 /\ k <= 2 THEN h0[k] + 4 ELSE h0[k]]} :
     \* an array like the last one, of which one number differs
     \E ax \in {IF like = 1 /\ sc.qs # <<>> THEN [k \in 1..Len(sc.qs[Len(sc.qs)].dims) |-> sc.qs[Len(sc.qs)].dims[k].axis] ELSE ax0} :
       LET D == [k \in 1..Len(ax) |-> [axis |-> ax[k], iface |-> f[k], origin |-> o[k], extent |-> e[k] + f[k], shape |-> o[k] + e[k] + f[k] + h[k]]]
           P == sc.qs[Len(sc.qs)].dims
           c == (e[1] + h[1]) % 3   j == (o[1] % Len(ax)) + 1
           Close == [P EXCEPT ![j] = CASE c = 0 -> [@ EXCEPT !.shape = @ + 1]
                                       [] c = 1 -> [@ EXCEPT !.origin = @ + 1, !.shape = @ + 1]
                                       [] OTHER -> IF @.extent > 2 THEN [@ EXCEPT !.extent = @ - 1]
                                                   ELSE [@ EXCEPT !.extent = @ + 1, !.shape = @ + 1]]
       IN sc' = [sc EXCEPT !.qs = Append(@, [dtype |-> dt, special |-> (sp = 1), mem |-> m, dims |-> IF like = 1 /\ sc.qs # <<>> THEN Close ELSE D])]
Views == { k \in 1..Len(sc.ops) : sc.ops[k].op = "view" }
Op ==
  /\ p >= 1 /\ Len(sc.qs) = sc.nq /\ Len(sc.ops) < Steps /\ p' = p + 1
  /\ \E w \in One(1..10), q \in One(1..sc.nq), inst \in One(1..2), b \in One(0..7), rr \in One(0..999), pt \in One(1..11), inner \in One(BOOLEAN),
        v \in One(0..99) :
     LET n == << 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7 >>[pt] IN
       sc' = [sc EXCEPT !.ops = Append(@,
         IF w = 10 THEN [op |-> "poke", q |-> q]
         ELSE IF w >= 8 /\ Views # {} THEN [op |-> IF w = 8 THEN "fill" ELSE "look",
                                            of |-> LET V == Views n2 == Cardinality(V) IN CHOOSE x \in V : Cardinality({ y \in V : y < x }) = v % n2]
         ELSE IF w = 7 /\ Views # {} THEN \* the same request once more
              LET V == Views n2 == Cardinality(V) x == CHOOSE x \in V : Cardinality({ y \in V : y < x }) = v % n2 IN sc.ops[x]
         ELSE [op |-> "view", q |-> q, inst |-> inst, b |-> b, inner |-> inner,
               \* no rank sends more than it has: either that many points or far too many
               n |-> IF inner /\ ~Enough(sc.qs[q].dims, C!DirX(b), C!DirY(b), n) THEN 99 ELSE n,
               rank |-> rr % ((IF inst = 1 THEN 6 ELSE 1) * sc.layouts[inst][1] * sc.layouts[inst][2])])]
Next == \/ Setup \/ AddQ \/ Op
        \/ /\ p >= 1 /\ Len(sc.qs) = sc.nq /\ Len(sc.ops) = Steps /\ p' = -1 /\ UNCHANGED sc
           /\ PrintT("@SCEN " \o ToJson(sc))
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
