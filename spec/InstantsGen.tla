------------------------------- MODULE InstantsGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
Zones == << "UTC0", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "LINT-14", "AoE12" >>
Units == << "D", "h", "m", "s", "ms", "us", "ns" >>
Chars == << " ", "t", "n", "m", "s", "^", "-", "1", "K", "k", "M" >>
Init == sc = [ops |-> <<>>] /\ p = 0
Setup == p = 0 /\ p' = 1 /\ \E n \in One(1..8), z \in One(1..6) : sc' = [no |-> n, zone |-> Zones[z], ops |-> <<>>]
Instant ==
  /\ p = 1 /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E u \in One(1..7), far \in One(-719162..2932895), near \in One(-31000..31000), leap \in One(0..20), c \in One(1..3), s \in One(0..86399),
        ms \in One({0, 125, 250, 500, 875}), f \in One(0..63), zone \in One(1..20), form \in One({"scalar", "element", "string"}) :
       LET \* days about the end of February or of a year, of distant years, or of our time
           day == IF c = 1 THEN near ELSE IF c = 2 THEN (IF u >= 4 /\ (u # 4 \/ form # "string") /\ u # 7 THEN far ELSE near) ELSE (365*leap) + 10950 + (near % 62)
           sec == CASE u = 1 -> 0 [] u = 2 -> (s \div 3600)*3600 [] u = 3 -> (s \div 60)*60 [] OTHER -> s
           us == IF day < -31000 \/ day > 31000 THEN 0 ELSE CASE u = 5 -> ms*1000 [] u >= 6 -> f*15625 [] OTHER -> 0
       IN sc' = [sc EXCEPT !.ops = Append(@, [op |-> "instant", day |-> day, sec |-> sec, us |-> us, unit |-> Units[u], form |-> form,
                                              zone |-> IF zone <= 6 THEN Zones[zone] ELSE "", a |-> <<>>, b |-> <<>>])]
Text(w, n) == [k \in 1..n |-> Chars[w[k]]]
Compare ==
  /\ p = 1 /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E w \in One([1..4 -> 1..11]), v \in One([1..4 -> 1..11]), n \in One(0..4), m \in One(0..4), l \in One(0..2), r \in One(0..2), x \in One([1..4 -> 1..3]), same \in One(1..3), at \in One(1..4) :
       LET a == Text(w, n)
           core == IF same = 1 THEN Text(v, m) ELSE IF same = 2 THEN a ELSE [k \in 1..n |-> IF k = at THEN Chars[v[k]] ELSE a[k]]
           b == Text(x, l) \o core \o [k \in 1..r |-> Chars[x[4 - (k - 1)]]]
       IN sc' = [sc EXCEPT !.ops = Append(@, [op |-> "units", day |-> 0, sec |-> 0, us |-> 0, unit |-> "", form |-> "", zone |-> "", a |-> a, b |-> b])]
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ Instant \/ Compare \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
