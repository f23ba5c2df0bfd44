--------------------------------- MODULE TopoGen ---------------------------------
(* Generates histories of boundary queries on several partitioners, mixed with
   callers that modify the answers they were given.                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxL, Steps
VARIABLES insts, ops, p
vars == <<insts, ops, p>>
One(S) == {RandomElement(S)}
Cube(L) == [kind |-> "cube", ly |-> L, lx |-> L, of |-> 0]
Init == p = 0 /\ insts = <<>> /\ ops = <<>>
Start == \E a \in One(1..MaxL), b \in One(1..MaxL), y \in One(1..MaxL), x \in One(1..MaxL) :
           /\ p = 0
           \* two cubes, the tile partitioner inside the first, and one on its own
           /\ insts' = << Cube(a), Cube(b), [kind |-> "tile", ly |-> a, lx |-> a, of |-> 1],
                          [kind |-> "tile", ly |-> y, lx |-> x, of |-> 0] >>
           /\ ops' = <<>> /\ p' = 1
NRanks(c) == (IF c.kind = "cube" THEN 6 ELSE 1) * c.ly * c.lx
\* ask a few directions of a few ranks again and again
Query == \E k \in One({1, 1, 2, 3, 4}), b \in One(0..7) :
         \E r \in One(0..(NRanks(insts[k]) - 1)), near \in One(BOOLEAN) :
           LET rank == IF near THEN (r % 4) % NRanks(insts[k]) ELSE r IN
           ops' = Append(ops, [op |-> "query", inst |-> k, b |-> b, rank |-> rank])
Again == \E q \in One(1..Len(ops)) :
           IF ops[q].op = "query" THEN ops' = Append(ops, ops[q]) ELSE ops' = ops
Spoil == \E q \in One(1..Len(ops)), f \in One({"to_rank", "n_clockwise_rotations", "from_rank", "boundary_type"}), v \in One(0..5) :
           IF ops[q].op = "query" THEN ops' = Append(ops, [op |-> "spoil", answer |-> q, field |-> f, value |-> v])
           ELSE ops' = ops
Next == \/ Start
        \/ /\ p \in 1..Steps /\ p' = p + 1 /\ UNCHANGED insts
           /\ \E c \in One(1..10) : IF Len(ops) = 0 \/ c <= 4 THEN Query ELSE IF c <= 7 THEN Spoil ELSE Again
        \/ /\ p = Steps + 1 /\ p' = p + 1 /\ UNCHANGED <<insts, ops>>
           /\ PrintT("@SCEN " \o ToJson([insts |-> insts, ops |-> ops]))
Spec == Init /\ [][Next]_vars
=================================================================================
