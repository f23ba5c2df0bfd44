-------------------------------- MODULE TopoTrace --------------------------------
(* Validates answers of partitioners about neighbours (C01) in order: every answer
   is what the geometry says, whatever was asked or modified before.                *)
EXTENDS Cube, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

(* what must be answered: <<>> when there is no neighbour *)
Want(c, b, rank) ==
  IF c.kind = "tile" THEN << PeriodicRank(c.ly, c.lx, rank, DirX(b), DirY(b)), 0 >>
  ELSE IF ~HasNeighbour(c.ly, rank, DirX(b), DirY(b)) THEN <<>>
  ELSE << NeighbourRank(c.ly, rank, DirX(b), DirY(b)), NeighbourTurns(c.ly, rank, DirX(b), DirY(b)) >>

AnswerOK(c, a) ==
  LET w == Want(c, a.b, a.rank) IN
  IF w = <<>> THEN a.none
  ELSE ~a.none /\ a.to = w[1] /\ a.turns % 4 = w[2] /\ a.from = a.rank

Bad(T) ==
  LET wrong == { k \in 1..Len(T.answers) : ~AnswerOK(T.insts[T.answers[k].inst], T.answers[k]) }
      k == CHOOSE k \in wrong : \A j \in wrong : k <= j
  IN IF wrong = {} THEN <<>>
     ELSE LET a == T.answers[k]  w == Want(T.insts[a.inst], a.b, a.rank) IN
          << IF w = <<>> THEN "a neighbour was reported where the cube has none"
             ELSE IF a.none THEN "no neighbour was reported"
             ELSE IF a.to # w[1] THEN "wrong neighbour"
             ELSE IF a.turns % 4 # w[2] THEN "wrong rotation" ELSE "wrong origin of the boundary",
             [answer |-> k, partitioner |-> T.insts[a.inst], got |-> a, want |-> w] >>

Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE
  ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> b[2]]))

TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
