--------------------------------- MODULE HaloGen ---------------------------------
(* Generates scenarios of single updates (run with -simulate): a path of choices, of
   which the last step prints the scenario.                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, MaxL, MaxN, Invalid, Sized    \* Sized: arrays as the allocator makes them
Z == INSTANCE Sizer
VARIABLES sc, p

Orders2 == { <<"x","y">>, <<"y","x">> }
Orders3 == { <<"x","y","o">>, <<"y","x","o">>, <<"x","o","y">>, <<"y","o","x">>, <<"o","x","y">>, <<"o","y","x">> }
Orders4 == { <<"o","y","x","o">>, <<"o","o","y","x">>, <<"o","o","x","y">>, <<"x","o","o","y">>, <<"y","o","x","o">>, <<"x","y","o","o">> }

(* interface flags << fx, fy >> of the components *)
Staggers(kind) ==
  CASE kind = "scalar" -> { << <<0,0>> >>, << <<1,1>> >> }
    [] kind = "vector" -> { << <<0,0>>, <<0,0>> >>, << <<1,1>>, <<1,1>> >>,
                            << <<0,1>>, <<1,0>> >>, << <<1,0>>, <<0,1>> >> }
    [] kind = "sync"   -> { << <<0,1>>, <<1,0>> >> }
OffGrid == { << <<0,0>>, <<0,0>> >>, << <<1,0>>, <<0,1>> >>, << <<0,1>>, <<1,1>> >>, << <<1,1>>, <<1,0>> >> }

Dim(ax, f, o, e, s) == [axis |-> ax, iface |-> f, origin |-> o, extent |-> e, shape |-> s]

One(S) == {RandomElement(S)}

Init == sc = [kind |-> "none"] /\ p = 1
Pick1 == \E k \in One(Kinds), L \in One(1..MaxL), n \in One(1..MaxN) :
           sc' = [kind |-> k, L |-> L, 
                  \* wide updates on few ranks only
                  n |-> IF L = 1 THEN n ELSE IF L = 2 THEN (IF n > 4 THEN n - 3 ELSE n) ELSE ((n - 1) % 3) + 1]
Pick2 == \E m \in One(1..sc.n), h \in One(0..2),
            st \in One(IF Invalid /\ sc.kind = "sync" THEN OffGrid ELSE Staggers(sc.kind)) :
           \* h: halo points in excess of those updated
           sc' = sc @@ [npts |-> m, pad |-> h, stag |-> st]
Pick3 == \E s \in One(1..4) : \E o \in One(IF s = 1 THEN Orders2 ELSE IF s = 4 THEN Orders4 ELSE Orders3) :
           sc' = sc @@ [order |-> o]
Pick4 == \E lo \in One(0..1), hi \in One(0..2), zo \in One(0..1), ze \in One(1..2), zi \in One(0..1),
            zh \in One(0..1), same \in One(BOOLEAN) :
           LET H == sc.npts + sc.pad
               Q(c) == [d \in 1..Len(sc.order) |->
                    LET ax == sc.order[d]
                        f == IF ax = "x" THEN sc.stag[c][1] ELSE IF ax = "y" THEN sc.stag[c][2] ELSE zi
                        e == IF ax = "o" THEN ze + zi ELSE sc.n + f
                        \* arrays of both staggerings may have the same shape, as the allocator makes them
                        o == IF ax = "o" THEN zo ELSE H + lo
                        up == IF ax = "o" THEN zh ELSE H + hi + (IF same THEN 1 - f ELSE 0)
                        \* the first of the other dimensions is the vertical one
                        sd == [axis |-> IF ax # "o" THEN ax ELSE IF \E j \in 1..(d-1) : sc.order[j] = "o" THEN "e" ELSE "z",
                               iface |-> f, cells |-> IF ax = "o" THEN ze ELSE sc.n]
                    IN IF Sized THEN Dim(ax, f, Z!Origin(sd, H), Z!Extent(sd), Z!ArrayLength(sd, H))
                       ELSE Dim(ax, f, o, e, o + e + up)]
           IN sc' = sc @@ [halo |-> IF Sized THEN H ELSE -1, nz |-> ze, qs |-> [c \in 1..Len(sc.stag) |-> Q(c)]]
Types(k) == LET signed == {"float64", "float32", "int32", "int64", "int16", "int8", "complex128"}
            IN IF k = "scalar" THEN signed \union {"uint8", "bool"} ELSE signed
Memories == {"C", "F", "strided", "reversed", "inner"}
Pick5 == \E dt \in One(Types(sc.kind)), wide \in One({"float64", "float32", "int32", "int64"}), w \in One(BOOLEAN), sp \in One(1..3), mo \in One(Memories),
            dl \in One({"eager", "rendezvous", "mixed"}), po \in One({"random", "stay", "prio", "rr"}),
            sd \in One(0..99999), sy \in One(BOOLEAN), a \in One(BOOLEAN) :
           sc' = sc @@ [dtype |-> IF w THEN wide ELSE dt, special |-> (sp = 1), order_mem |-> mo, delivery |-> dl, policy |-> po, seed |-> sd, sync |-> sy, asyn |-> a]
(* invalid requests: no points, or more than the array has around its compute domain *)
Pick6 == IF ~Invalid \/ sc.kind = "sync" THEN sc' = sc
         ELSE \E z \in One({0, 1}) :
                sc' = [sc EXCEPT !.npts = IF z = 0 THEN 0 ELSE sc.npts + sc.pad + 3 + 1]

(* Further updates by the same communicators, each a variation of the first that a cache
   of its parts might confuse with it: other points, extents, origins, lengths of the
   array, order of dimensions; last perhaps one that asks for too much.             *)
Step == [n |-> sc.n, npts |-> sc.npts, qs |-> sc.qs, dtype |-> sc.dtype, order_mem |-> sc.order_mem, asyn |-> sc.asyn]
Fits(Q, m) == \A d \in 1..Len(Q) :
                /\ Q[d].extent >= 1 /\ Q[d].origin >= 0 /\ Q[d].origin + Q[d].extent <= Q[d].shape
                /\ Q[d].axis # "o" => Q[d].origin >= m /\ Q[d].origin + Q[d].extent + m <= Q[d].shape
Valid(s) == /\ s.npts >= 1 /\ s.npts <= s.n
            /\ \A q \in 1..Len(s.qs) : sc.kind = "sync" \/ Fits(s.qs[q], s.npts)
            /\ \A q \in 1..Len(s.qs) : Fits(s.qs[q], 0)
Map(s, F(_)) == [s EXCEPT !.qs = [q \in 1..Len(s.qs) |-> [d \in 1..Len(s.qs[q]) |-> F(s.qs[q][d])]]]
Horizontal(D) == D.axis # "o"
Reversed(Q) == [d \in 1..Len(Q) |-> Q[Len(Q) + 1 - d]]
Swapped(Q) == LET x == CHOOSE d \in 1..Len(Q) : Q[d].axis = "x"
                  y == CHOOSE d \in 1..Len(Q) : Q[d].axis = "y"
              IN [Q EXCEPT ![x] = Q[y], ![y] = Q[x]]
Variants(v, s) ==
  LET Cells(m) == LET F(D) == IF Horizontal(D) THEN [D EXCEPT !.extent = m + D.iface] ELSE D
                  IN [Map(s, F) EXCEPT !.n = m]
      Moved(ax, k) == LET F(D) == IF D.axis = ax THEN [D EXCEPT !.origin = D.origin + k] ELSE D IN Map(s, F)
      Longer(ax, k) == LET F(D) == IF D.axis = ax THEN [D EXCEPT !.shape = D.shape + k] ELSE D IN Map(s, F)
      Deeper(k) == LET F(D) == IF D.axis = "o" THEN [D EXCEPT !.extent = D.extent + k] ELSE D IN Map(s, F)
  IN { t \in CASE v = "points" -> { [s EXCEPT !.npts = m] : m \in 1..s.n }
               [] v = "cells" -> { Cells(m) : m \in (IF s.n = 1 THEN 1 ELSE s.n - 1)..(s.n + 1) }
               [] v = "origin" -> { Moved(ax, k) : ax \in {"x", "y", "o"}, k \in {-2, -1, 1, 2} }
               [] v = "length" -> { Longer(ax, k) : ax \in {"x", "y", "o"}, k \in {-1, 1} }
               [] v = "depth" -> { Deeper(k) : k \in {-1, 1} }
               [] v = "swapped" -> { [s EXCEPT !.qs = [q \in 1..Len(s.qs) |-> Swapped(s.qs[q])]] }
               [] v = "reversed" -> { [s EXCEPT !.qs = [q \in 1..Len(s.qs) |-> Reversed(s.qs[q])]] }
               [] v = "dtype" -> { [s EXCEPT !.dtype = t] : t \in Types(sc.kind) }
               [] v = "memory" -> { [s EXCEPT !.order_mem = t] : t \in Memories }
       : t # s /\ Valid(t) }
(* arrays one element too short on one side *)
Short(s) ==
  { t \in { LET F(D) == IF D.axis # ax THEN D
                        ELSE IF side = 0 THEN [D EXCEPT !.origin = s.npts - 1]
                        ELSE [D EXCEPT !.shape = D.origin + D.extent + s.npts - 1]
            IN Map(s, F) : ax \in {"x", "y"}, side \in 0..1 } : t # s }
Kind == {"points", "cells", "cells", "origin", "origin", "length", "depth", "swapped", "reversed", "dtype", "memory"}
Pick7 == \E d \in One(BOOLEAN) : sc' = sc @@ [more |-> <<>>, drop |-> d]    \* drop: each quantity is freed after its update
Vary == LET s == IF sc.more = <<>> THEN Step ELSE sc.more[Len(sc.more)] IN
        IF Invalid \/ Sized THEN sc' = sc
        ELSE \E v \in One(Kind) : \E V \in {TLCEval(Variants(v, s))} :
               IF V = {} THEN sc' = sc
               ELSE \E t \in One(V) : sc' = [sc EXCEPT !.more = Append(@, t)]
VaryShort == LET s == IF sc.more = <<>> THEN Step ELSE sc.more[Len(sc.more)] IN
        IF Invalid \/ Sized \/ sc.kind = "sync" THEN sc' = sc
        ELSE \E b \in One(1..3) : IF b > 1 THEN sc' = sc
               ELSE \E t \in One(Short(s)) : sc' = [sc EXCEPT !.more = Append(@, t)]
Emit == PrintT("@SCEN " \o ToJson(sc)) /\ sc' = sc
Next == /\ p <= 12
        /\ p' = p + 1
        /\ CASE p = 1 -> Pick1 [] p = 2 -> Pick2 [] p = 3 -> Pick3 [] p = 4 -> Pick4
             [] p = 5 -> Pick5 [] p = 6 -> Pick6 [] p = 7 -> Pick7 [] p \in 8..10 -> Vary
             [] p = 11 -> VaryShort [] p = 12 -> Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
