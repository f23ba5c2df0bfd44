-------------------------------- MODULE RanksGen --------------------------------
(* Generates histories of questions about ranks to several partitioners.           *)
EXTENDS Ranks, TLC, Json
CONSTANTS MaxL, Steps, Running
VARIABLES insts, ops, p
vars == <<insts, ops, p>>
One(S) == {RandomElement(S)}
Init == p = 0 /\ insts = <<>> /\ ops = <<>>
Makes == {"tuple", "list", "namelist"}
Start == \E a \in One(1..MaxL), b \in One(1..MaxL), c \in One(1..MaxL), y \in One(1..MaxL), x \in One(1..MaxL),
            m1 \in One(Makes), m2 \in One(Makes), m3 \in One(Makes) :
           /\ p = 0 /\ p' = 1 /\ ops' = <<>>
           \* a square cube, another cube, the tile partitioner inside each, and one on its own
           \* whose layout is the transpose of the second's as often as not
           /\ insts' = << [kind |-> "cube", ly |-> a, lx |-> a, of |-> 0, make |-> m1],
                          [kind |-> "cube", ly |-> b, lx |-> c, of |-> 0, make |-> m2],
                          [kind |-> "tile", ly |-> a, lx |-> a, of |-> 1, make |-> ""],
                          [kind |-> "tile", ly |-> b, lx |-> c, of |-> 2, make |-> ""],
                          IF (x + y) % 2 = 0 THEN [kind |-> "tile", ly |-> c, lx |-> b, of |-> 0, make |-> m3]
                          ELSE [kind |-> "tile", ly |-> y, lx |-> x, of |-> 0, make |-> m3] >>
Questions(k) == IF k = "cube" THEN {"tile", "root", "layout", "total"}
                ELSE {"subtile", "left", "right", "top", "bottom", "mirror", "turn", "noturn", "total", "layout"} \cup FurtherTurns
Ask == \E k \in One(1..5) : \E q \in One(Questions(insts[k].kind)), np \in One(BOOLEAN),
         \* places are asked of ranks of the whole cube, moves only within the tile
         r \in One(0..(6*insts[k].ly*insts[k].lx - 1)) :
       LET c == insts[k]  n == c.ly*c.lx
           square == c.ly = c.lx
           q1 == IF q \in {"turn"} \cup (FurtherTurns \ {"halfturn"}) /\ ~square THEN "mirror" ELSE q
       IN ops' = Append(ops, [q |-> q1, inst |-> k, np |-> np, total |-> 0,
                              rank |-> IF q1 \in {"mirror", "turn", "noturn"} \cup FurtherTurns THEN r % n ELSE r])
Loose == \E a \in One(1..60), b \in One(1..20000), big \in One(1..3), s \in One(1..4), q \in One({"indexof", "numberof", "suffix"}) :
         \E t \in {TLCEval(LET u == IF big = 1 THEN b ELSE a IN IF s > 1 THEN 6*u ELSE u)} : \E r \in One(0..(t - 1)) :
           ops' = Append(ops, [q |-> q, inst |-> 0, np |-> FALSE, total |-> t, rank |-> r])
Wrong == \E w \in One(1..4) : ops' = Append(ops, [q |-> "nontile", inst |-> 0, np |-> FALSE, total |-> w, rank |-> 0])
(* a cube of running ranks; each asks again so many times, here and there *)
Layouts == { w \in (1..3) \X (1..3) : w[1]*w[2] <= MaxL }
Run == \E w \in One(Layouts), sd \in One(0..99999), sy \in One(BOOLEAN), po \in One({"random", "stay", "prio", "rr"}) :
       \E again \in One([0..(6*w[1]*w[2] - 1) -> [1..4 -> 0..2]]) :
         insts' = << [kind |-> "run", layout |-> w, seed |-> sd, sync |-> sy, policy |-> po,
                      again |-> [r \in 1..(6*w[1]*w[2]) |-> again[r - 1]]] >>
Next == \/ Running /\ p = 0 /\ Run /\ p' = Steps + 2 /\ UNCHANGED ops
        \/ Running /\ p = Steps + 2 /\ p' = p + 1 /\ UNCHANGED <<insts, ops>>
           /\ PrintT("@SCEN " \o ToJson(insts[1]))
        \/ ~Running /\ Start
        \/ /\ p \in 1..Steps /\ p' = p + 1 /\ UNCHANGED insts
           /\ \E c \in One(1..12) : IF c = 1 THEN Wrong ELSE IF c <= 3 THEN Loose ELSE Ask
        \/ /\ p = Steps + 1 /\ p' = p + 1 /\ UNCHANGED <<insts, ops>>
           /\ PrintT("@SCEN " \o ToJson([kind |-> "ask", insts |-> insts, ops |-> ops]))
Spec == Init /\ [][Next]_vars
=================================================================================
