-------------------------------- MODULE QuantityGen --------------------------------
(* Generates histories of reads, writes, selections, transpositions and conversions of
   quantities (C09: Mode = "view", C10: Mode = "meta").                             *)
EXTENDS Quantity, Json
CONSTANTS Mode, MaxOps
VARIABLES sc, objs, nh, p
vars == << sc, objs, nh, p >>
One(X) == {RandomElement(X)}
Pool == {"x", "y", "z", "x_interface", "y_interface", "z_interface", "tracer", "z_soil", "tile"}
Views == {"view", "interior", "northwest", "northeast", "southwest", "southeast"}
Init == sc = [ops |-> <<>>] /\ objs = <<>> /\ nh = 0 /\ p = 0
Setup == p = 0 /\ p' = 1 /\ UNCHANGED << objs, nh >>
         /\ \E no \in One(3..MaxOps), nq \in One(1..2) : sc' = [no |-> no, nq |-> nq, ops |-> <<>>]
NewOf == Cardinality({ k \in 1..Len(sc.ops) : sc.ops[k].op = "new" })
Distinct(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
Perms(n) == { f \in [1..n -> Pool] : Distinct(f) }
(* a new quantity: the counts of names, origin and extent may disagree *)
New ==
  /\ p = 1 /\ (NewOf < sc.nq \/ (Len(sc.ops) < sc.no /\ Mode = "meta"))
  /\ \E w \in One(1..8), n \in One({0, 1, 2, 2, 3, 3, 3, 4, 4}) : \E m \in One(IF n <= 2 THEN {1, 2, 3, 4, 5} ELSE IF n = 3 THEN {1, 2, 3, 4} ELSE {1, 2, 3}) :
     \E names \in One(Perms(n)),
        o \in One([1..n -> 0..2]), x \in One([1..n -> 1..m]), h \in One([1..n -> 0..2]), zo \in One(1..4),
        fail \in One({"", "", "", "", "names", "origin", "extent", "names+", "origin+", "extent+"}),
        dt \in One({"float64", "float32", "int32", "int64", "bool", "float64", "float16", "int16", "uint8", "complex128", "float64"}), mem \in One({"C", "F", "strided", "reversed", "inner"}), u \in One({"m", "", "m s**-1", "K/s", " K", "m s-1 ", "None", "\tPa\n", "1"}),
        kind \in One({"list", "tuple", "array"}) :
       LET oo == IF zo = 1 THEN [k \in 1..n |-> 0] ELSE o
           sh == [k \in 1..n |-> oo[k] + x[k] + (IF zo = 2 THEN 0 ELSE h[k])]
           bad == IF Mode = "view" \/ NewOf = 0 THEN "" ELSE fail
           cut(s, f) == IF bad = f /\ n > 0 THEN SubSeq(s, 1, n-1) ELSE IF bad = f \o "+" THEN Append(s, IF f = "names" THEN "another" ELSE 1) ELSE s
           ok == bad = "" \/ (n = 0 /\ bad \in {"names", "origin", "extent"})
           ge == w % 2 = 0 /\ bad \notin {"extent", "extent+"}    \* extent left out
           go == w = 1 /\ bad \notin {"origin", "origin+"} /\ ok   \* origin and extent left out
           obj == [names |-> names, shape |-> sh, origin |-> IF go THEN [k \in 1..n |-> 0] ELSE oo,
                   extent |-> IF go THEN sh ELSE IF ge THEN [k \in 1..n |-> sh[k] - oo[k]] ELSE x]
       IN /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "new", names |-> cut(names, "names"), shape |-> sh, origin |-> cut(oo, "origin"),
                       extent |-> cut(x, "extent"), noOrigin |-> go, noExtent |-> ge \/ go, dtype |-> IF Mode = "view" /\ dt = "bool" THEN "float64" ELSE dt, mem |-> mem, units |-> u, fails |-> ~ok, kind |-> kind])]
          /\ objs' = IF ok THEN Append(objs, obj) ELSE objs
          /\ p' = IF NewOf + 1 >= sc.nq THEN 2 ELSE 1
          /\ nh' = nh
Full(n) == [k \in 1..n |-> k]
(* one index of dimension k of object q, in terms of positions in the array *)
Ix(q, v, k, c, a, b, s) ==
  LET so == StartOff(v, q.names[k], q.origin[k], q.extent[k])  sp == StopOff(v, q.names[k], q.origin[k], q.extent[k])
      lo == a % (q.shape[k]+1)  hi == b % (q.shape[k]+2)
  IN IF c <= 2 THEN [All EXCEPT !.int = TRUE, !.at = (a % q.shape[k]) - so]
     ELSE [All EXCEPT !.a = IF c \in {3, 4} THEN << >> ELSE << lo - so >>,
                      !.b = IF c \in {3, 5} THEN << >> ELSE << hi - sp >>,
                      !.s = IF s > 4 THEN << >> ELSE << ((s + 1) \div 2) + (IF s = 4 THEN 1 ELSE 0) >>]
Rank(idx, n) == n - Cardinality({ k \in 1..Len(idx) : idx[k].int })
Access ==
  /\ p = 2 /\ Len(sc.ops) < sc.no
  /\ \E w \in One(1..16) : w <= (IF Mode = "view" THEN 16 ELSE 6) 
     /\ \E o \in One(1..Len(objs)), v \in One(Views), c \in One([1..4 -> 1..8]), a \in One([1..4 -> 0..59]), b \in One([1..4 -> 0..59]),
           s \in One([1..4 -> 1..8]), cut \in One(0..6), form \in One(1..3), ord \in One(0..23), some \in One([1..4 -> BOOLEAN]), scalar \in One(BOOLEAN) :
       LET q == objs[o]  n == Len(q.names)
           idx == [k \in 1..n |-> Ix(q, v, k, c[k], a[k], b[k], s[k])]
           short == SubSeq(idx, 1, IF cut < n /\ cut <= 2 THEN cut ELSE n)
           named == SelectSeq([k \in 1..n |-> [name |-> q.names[((k + ord) % n) + 1], ix |-> idx[((k + ord) % n) + 1], use |-> some[((k+ord)%n)+1]]], LAMBDA e : e.use)
           sel == [k \in 1..Len(named) |-> [name |-> named[k].name, ix |-> named[k].ix]]
       IN \/ /\ w <= (IF Mode = "view" THEN 6 ELSE 4)
             /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "read", obj |-> o, view |-> v, idx |-> short, form |-> form])]
             /\ nh' = nh + 1 /\ UNCHANGED << objs, p >>
          \/ /\ w \in 7..11 /\ Mode = "view"
             /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "write", obj |-> o, view |-> v, idx |-> short, form |-> form, scalar |-> scalar])]
             /\ UNCHANGED << objs, nh, p >>
          \/ /\ w \in (IF n = 0 THEN 14..14 ELSE 12..14) /\ Mode = "view"
             /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "sel", obj |-> o, view |-> v, sel |-> sel, quantity |-> v = "view" /\ scalar])]
             /\ nh' = nh + 1 /\ UNCHANGED << objs, p >>
          \/ /\ w \in (IF n = 0 THEN {12, 13, 15} ELSE {15}) /\ Mode = "view"
             /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "toomany", obj |-> o, view |-> v, ints |-> form, write |-> scalar])]
             /\ UNCHANGED << objs, nh, p >>
          \/ /\ w = 16 \/ (w >= 5 /\ Mode = "meta")
             /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "show", obj |-> o, how |-> << "values", "attrs", "text" >>[form]])]
             /\ UNCHANGED << objs, nh, p >>
Poke ==
  /\ p = 2 /\ Len(sc.ops) < sc.no /\ nh > 0
  /\ \E w \in One(1..6), h \in One(1..nh) : w = 1 /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "poke", handle |-> h])]
  /\ UNCHANGED << objs, nh, p >>
Group(n) == CASE IsX(n) -> << "x", "x_interface" >> [] IsY(n) -> << "y", "y_interface" >>
              [] n \in {"z", "z_interface"} -> << "z", "z_interface" >> [] OTHER -> << n >>
Others(q) == { x \in Pool : \A k \in 1..Len(q.names) : q.names[k] # x } \cup {"nowhere"}
Transpose ==
  /\ p = 2 /\ Len(sc.ops) < sc.no
  /\ \E w \in One(1..(IF Mode = "meta" THEN 2 ELSE 9)) : w = 1
  /\ \E o \in One(1..Len(objs)) :
     LET q == objs[o]  n == Len(q.names)  P == { f \in [1..n -> 1..n] : Distinct(f) } IN
     \E f \in One(P), g \in One([1..4 -> 1..5]), wrong \in One(1..8), other \in One(Others(q)), o2 \in One(Others(q)), pos \in One(1..4), tup \in One(BOOLEAN) :
       LET grp(k) == LET nm == q.names[f[k]] IN
                     CASE g[k] <= 2 -> << nm >> [] g[k] = 3 -> Group(nm)
                       [] g[k] = 4 -> << other, nm >> [] OTHER -> << nm, other, o2 >>
           t0 == [k \in 1..n |-> grp(k)]
           t == IF n > 0 /\ pos <= n /\ wrong = 1 THEN [t0 EXCEPT ![pos] = << other >>]
                ELSE IF n > 1 /\ pos < n /\ wrong = 2 THEN [t0 EXCEPT ![pos] = << q.names[f[pos]], q.names[f[pos+1]] >>] ELSE t0
           plain == [k \in 1..n |-> Len(t[k]) = 1 /\ g[k] = 1]
           fails == \E k \in 1..n : Cardinality(Matches(q, t[k])) # 1
       IN /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> "transpose", obj |-> o, targets |-> t, plain |-> plain, tuple |-> tup])]
          /\ objs' = IF fails THEN objs
                     ELSE Append(objs, [names |-> [j \in 1..n |-> q.names[f[j]]], shape |-> [j \in 1..n |-> q.shape[f[j]]],
                                        origin |-> [j \in 1..n |-> q.origin[f[j]]], extent |-> [j \in 1..n |-> q.extent[f[j]]]])
  /\ UNCHANGED << nh, p >>
Convert ==
  /\ p = 2 /\ Len(sc.ops) < sc.no /\ Mode = "meta"
  /\ \E w \in One(1..3) : w = 1
  /\ \E o \in One(1..Len(objs)), how \in One(1..3) :
       LET q == objs[o] IN
       \E org \in One([1..Len(q.names) -> 0..1]), less \in One([1..Len(q.names) -> 0..1]), we \in One(BOOLEAN) :
       sc' = [sc EXCEPT !.ops = Append(@, [op |-> "convert", obj |-> o, withOrigin |-> how = 1,
                origin |-> [k \in 1..Len(q.names) |-> IF q.extent[k] > 1 THEN org[k] ELSE 0],
                withExtent |-> we,
                extent |-> [k \in 1..Len(q.names) |-> LET e == q.extent[k] - (IF how = 1 /\ q.extent[k] > 1 THEN org[k] ELSE 0) IN IF e > 1 THEN e - less[k] ELSE e]])]
  /\ UNCHANGED << objs, nh, p >>
NewLater == p = 2 /\ Mode = "meta" /\ NewOf < 4 /\ (\E w \in One(1..5) : w = 1) /\ p' = 1 /\ UNCHANGED << sc, objs, nh >>
Emit == p = 2 /\ Len(sc.ops) >= sc.no /\ PrintT("@SCEN " \o ToJson(sc)) /\ p' = 3 /\ UNCHANGED << sc, objs, nh >>
Next == IF p = 0 THEN Setup ELSE IF p = 1 THEN New ELSE IF p = 2 /\ Len(sc.ops) >= sc.no THEN Emit
        ELSE p = 2 /\ (Access \/ Poke \/ Transpose \/ Convert \/ NewLater \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=================================================================================
