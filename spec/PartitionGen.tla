------------------------------- MODULE PartitionGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxP, MaxM
VARIABLES sc, p
One(S) == {RandomElement(S)}
Init == sc = [kind |-> ""] /\ p = 0
Pick1 == \E k \in One({"tile", "tile", "cube"}), big \in One(1..3), a \in One(1..9), b \in One(1..9),
            c \in One(1..MaxP), flip \in One(BOOLEAN) :
           LET y == IF big = 1 THEN c ELSE a
               py == IF flip THEN b ELSE y   px == IF flip THEN y ELSE b
           IN sc' = [kind |-> k, layout |-> << py, px >>, dims |-> <<>>]
(* dimensions in any order, each axis at most once, any number of others *)
Have(ax) == \E k \in 1..Len(sc.dims) : sc.dims[k].axis = ax
AddDim == \E ax \in One({"x", "y", "x", "y", "o"}), f \in One(0..1), m \in One(1..MaxM), s \in One(1..4) :
            LET P == CASE ax = "y" -> sc.layout[1] [] ax = "x" -> sc.layout[2] [] OTHER -> 1
                mm == IF s = 1 THEN m ELSE s
            IN IF (ax # "o" /\ Have(ax)) \/ Len(sc.dims) >= 5 THEN sc' = sc
               ELSE sc' = [sc EXCEPT !.dims = Append(@, [axis |-> ax, iface |-> f, cells |-> mm*P])]
(* further questions that a cache of answers might confuse with the first: the same
   dimensions in another order or on other grids, of other lengths, another layout with
   as many ranks, or a tile instead of a cube *)
RECURSIVE Reverse(_)
Reverse(D) == IF D = <<>> THEN <<>> ELSE Append(Reverse(Tail(D)), Head(D))
Ranks(d, l) == CASE d.axis = "y" -> l[1] [] d.axis = "x" -> l[2] [] OTHER -> 1
Refit(D, l, m) == [k \in 1..Len(D) |-> LET c == D[k].cells \div Ranks(D[k], sc.layout)
                                     IN [D[k] EXCEPT !.cells = (IF c + m < 1 THEN 1 ELSE c + m) * Ranks(D[k], l)]]
Same == [kind |-> sc.kind, layout |-> sc.layout, dims |-> sc.dims]
More == \E v \in One(1..8), m \in One({-1, 1, 2, 5}) :
  LET s == CASE v \in {1, 2} -> [Same EXCEPT !.dims = Reverse(sc.dims)]
             [] v \in {3, 4} -> [Same EXCEPT !.dims = Refit(sc.dims, sc.layout, m)]
             [] v = 5 -> [Same EXCEPT !.dims = [k \in 1..Len(sc.dims) |->
                                 [sc.dims[k] EXCEPT !.iface = 1 - sc.dims[k].iface]]]
             [] v = 6 -> LET l == << sc.layout[2], sc.layout[1] >>
                         IN [Same EXCEPT !.layout = l, !.dims = Refit(sc.dims, l, 0)]
             [] v = 7 -> [Same EXCEPT !.kind = IF sc.kind = "tile" THEN "cube" ELSE "tile"]
             [] v = 8 -> [Same EXCEPT !.dims = IF sc.dims = <<>> THEN <<>> ELSE Tail(sc.dims)]
  IN sc' = [sc EXCEPT !.more = Append(@, s)]
Emit == sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == p < 12 /\ p' = p + 1 /\ IF p = 0 THEN Pick1 ELSE IF p < 6 THEN AddDim
                                ELSE IF p = 6 THEN sc' = sc @@ [more |-> <<>>]
                                ELSE IF p < 10 THEN \E b \in One(BOOLEAN) : IF b THEN More ELSE sc' = sc
                                ELSE IF p = 10 THEN Emit ELSE sc' = sc
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
