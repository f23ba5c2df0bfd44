--------------------------------- MODULE RotateTrace ---------------------------------
(* Validates histories of rotations (C12). *)
EXTENDS Rotate, Json, IOUtils
C == INSTANCE Cube
H == INSTANCE Halo
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, V
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
(* the boundary of a rank of a cube, by geometry *)
Dx == C!DirX(Op.bt)
Dy == C!DirY(Op.bt)
Side == C!Crossed(Op.L, Op.rank, Dx, Dy)
FromGeometry(W) ==
  LET t == C!TileOf(Op.L, Op.rank)
      part(comp) == LET c == H!Component(t, Side, comp) IN Scaled(W[IF c[1] = "x" THEN 1 ELSE 2], c[2])
  IN << part("x"), part("y") >>
Want == CASE Op.op = "scalar" -> << Turned(V[1], Op.n), Turned(V[2], Op.n) >>
          [] Op.op = "vector" -> TurnedVector(V, Op.n)
          [] Op.op = "inplace" -> InPlace(V, Op.n)
          [] Op.op = "boundary" -> IF Side = "C" THEN V ELSE FromGeometry(V)
Bad(w) ==
  IF Obs.error THEN "a rotation failed"
  ELSE IF Op.op = "boundary" /\ Obs.none # (Side = "C") THEN "a boundary is missing, or there is one at a vertex of the cube"
  ELSE IF \E k \in 1..2 : Obs.shapes[k] # w[k].shape THEN "wrong shape after rotating"
  ELSE IF \E k \in 1..2 : Obs.d[k] # w[k].d THEN "wrong values after rotating"
  ELSE IF Op.op \in {"scalar", "vector"} /\ (Obs.inputs[1] # V[1].d \/ Obs.inputs[2] # V[2].d) THEN "rotating changed its input" ELSE ""
Reject(clause, why) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << clause >>, why |-> why]))
Finish == PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 0 /\ V' = <<>>
TraceInit == i \in 1..Shards /\ l = 0 /\ V = <<>>
Begin == l = 0 /\ l' = 1 /\ i' = i /\ V' = [k \in 1..2 |-> [axes |-> T.axes, shape |-> T.shapes[k], d |-> T.start[k]]]
Step == \E w \in {TLCEval(Want)} : \E b \in {TLCEval(Bad(w))} :
        IF b # "" THEN Reject(b, [step |-> l, op |-> Op, obs |-> Obs, before |-> V, want |-> w]) /\ Finish
        ELSE V' = w /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ (IF l = 0 THEN Begin ELSE IF l > Len(T.ops) THEN Finish ELSE Step)
TraceSpec == TraceInit /\ [][TraceNext]_<< i, l, V >>
=================================================================================
