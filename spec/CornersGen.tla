--------------------------------- MODULE CornersGen ---------------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES sc, p
One(X) == {RandomElement(X)}
Init == sc = [ops |-> <<>>] /\ p = 0
Max2(a, b) == IF a > b THEN a ELSE b
Setup ==
  /\ p = 0 /\ p' = 1
  /\ \E ly0 \in One(1..3), lx0 \in One(1..3), long \in One(1..9), thin \in One(1..9) :
     \E ly \in {CASE thin = 1 -> 1 [] thin = 2 -> long [] OTHER -> ly0}, lx \in {CASE thin = 1 -> long [] thin = 2 -> 1 [] thin = 3 -> long [] OTHER -> lx0} :
     \E fx \in One(0..1), fy \in One(0..1), nx \in One(1..5), ny \in One(1..5), hm \in One(1..4),
        pads \in One([1..4 -> (0..2) \X (0..2)]), no \in One({0, 0, 1, 1, 2}), z \in One([1..2 -> 1..2]), w \in One(1..4), corner \in One(1..3),
        dt \in One({"float64", "float32", "int32", "float64", "int64", "int16", "uint8", "complex128", "float16"}), sp \in One(1..3), mem \in One({"C", "F", "strided", "reversed", "inner"}), ops \in One(1..4), bad \in One(1..12) :
     LET X == [axis |-> "x", iface |-> fx, origin |-> hm + pads[1][1], extent |-> nx + fx, shape |-> hm + pads[1][1] + nx + fx + hm + pads[1][2]]
         Y == [axis |-> "y", iface |-> fy, origin |-> hm + pads[2][1], extent |-> ny + fy, shape |-> hm + pads[2][1] + ny + fy + hm + pads[2][2]]
         O(k) == [axis |-> "o", iface |-> 0, origin |-> pads[2+k][1], extent |-> z[k], shape |-> z[k] + pads[2+k][1] + pads[2+k][2]]
         rest == [k \in 1..no |-> O(k)]
         dims == CASE bad = 1 -> << Y, X >> \o rest [] bad = 2 /\ no > 0 -> << O(1), X, Y >> [] bad = 3 /\ no > 0 -> << X, O(1), Y >>
                   [] OTHER -> << X, Y >> \o rest
         \* the strip lies within the compute domain
         mn == IF nx < ny THEN nx ELSE ny
         mx == IF mn < hm THEN mn ELSE hm
         n == ly*lx*6
         \* mostly ranks at a corner of the tile
         cr == CASE w = 1 -> 0 [] w = 2 -> lx - 1 [] w = 3 -> ly*lx - 1 [] OTHER -> (ly-1)*lx
     IN \E r \in One(0..n-1), t \in One(0..5) :
        sc' = [layout |-> << ly, lx >>, rank |-> IF corner = 1 THEN r ELSE t*ly*lx + cr, dims |-> dims, mx |-> mx, dtype |-> dt, special |-> (sp = 1), mem |-> mem, no |-> ops, ops |-> <<>>]
AddOp ==
  /\ p = 1 /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E d \in One({"x", "y", "x", "y", "x", "y", "z", "X"}), n \in One(0..sc.mx), k \in One(1..6) :
       sc' = [sc EXCEPT !.ops = Append(@, [op |-> IF k = 1 THEN "write" ELSE "fill", dir |-> d, n |-> IF n = 0 /\ k > 2 THEN sc.mx ELSE n])]
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ sc' = sc /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p>>
=================================================================================
