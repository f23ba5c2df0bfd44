------------------------------- MODULE QuantityTrace -------------------------------
(* Validates observed histories of quantities (C09, C10). *)
EXTENDS Quantity, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, objs, mem, handles
vars == << i, l, objs, mem, handles >>
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
S0 == [objs |-> objs, mem |-> mem, handles |-> handles]
OK(st) == [bad |-> "", st |-> st]
Bad(why) == [bad |-> why, st |-> S0]

MetaBad(q, x) ==
  IF x.names # q.names THEN "wrong dimension names" ELSE IF x.shape # q.shape THEN "wrong shape"
  ELSE IF x.origin # q.origin THEN "wrong origin" ELSE IF x.extent # q.extent THEN "wrong extent"
  ELSE IF x.units # q.units THEN "wrong units" ELSE IF x.dtype # q.dtype THEN "wrong dtype" ELSE ""

(* construction; which counts agree is decided here, not by the generator *)
NewOp ==
  LET n == Len(Op.shape)
      org == IF Op.noOrigin THEN [k \in 1..Len(Op.names) |-> 0] ELSE Op.origin
      fails == \/ Len(Op.names) # n \/ Len(org) # n \/ (~Op.noExtent /\ Len(Op.extent) # n)
      ext == IF Op.noExtent THEN [k \in 1..n |-> Op.shape[k] - org[k]] ELSE Op.extent
      size == Total(Op.shape)  at == Len(mem)
      q == [names |-> Op.names, shape |-> Op.shape, origin |-> org, extent |-> ext, units |-> Op.units, dtype |-> Op.dtype,
            cells |-> [e \in 1..size |-> at + e]]
  IN IF fails THEN (IF Obs.error THEN OK(S0) ELSE Bad("a quantity with disagreeing numbers of dimensions was accepted"))
     ELSE IF Obs.error THEN Bad("a valid quantity was refused")
     ELSE IF MetaBad(q, Obs.meta) # "" THEN Bad(MetaBad(q, Obs.meta))
     ELSE OK([S0 EXCEPT !.objs = Append(@, q), !.mem = @ \o Obs.initial])
Look(addr) ==
  IF Obs.error THEN Bad("a valid index was refused")
  ELSE IF Obs.shape # addr.shape THEN Bad("wrong shape of the selection")
  ELSE IF Obs.vals # Read(mem, addr.cells) THEN Bad("wrong elements were read")
  ELSE OK([S0 EXCEPT !.handles = Append(@, [cells |-> addr.cells, alias |-> Len(addr.shape) > 0 \/ Len(objs[Op.obj].names) = 0])])
ReadOp == Look(TLCEval(Address(objs[Op.obj], Op.view, Op.idx)))
SelOp == Look(TLCEval(Address(objs[Op.obj], Op.view, ByName(objs[Op.obj], Op.sel))))
WriteOp ==
  LET addr == TLCEval(Address(objs[Op.obj], Op.view, Op.idx)) IN
  IF Obs.error THEN Bad("a valid index was refused")
  ELSE IF Obs.shape # addr.shape THEN Bad("wrong shape of the selection")
  ELSE OK([S0 EXCEPT !.mem = Write(mem, addr.cells, Obs.vals)])
PokeOp ==
  LET h == handles[Op.handle] IN
  IF ~h.alias THEN OK(S0)
  ELSE IF Obs.error THEN Bad("the selection cannot be written to")
  ELSE OK([S0 EXCEPT !.mem = Write(mem, h.cells, Obs.vals)])
TooManyOp == IF Obs.error THEN OK(S0) ELSE Bad("too many indices were accepted")
TransposeOp ==
  LET q == objs[Op.obj] IN
  IF TransposeFails(q, Op.targets) THEN (IF Obs.error THEN OK(S0) ELSE Bad("a missing or ambiguous dimension was accepted"))
  ELSE LET t == TLCEval(Permute(q, Order(q, Op.targets))) IN
       IF Obs.error THEN Bad("a valid transposition was refused")
       ELSE IF MetaBad(t, Obs.meta) # "" THEN Bad(MetaBad(t, Obs.meta))
       ELSE OK([S0 EXCEPT !.objs = Append(@, t)])
ConvertOp ==
  LET q == objs[Op.obj]
      addr == TLCEval(Address(q, "view", << >>))
      org == IF Op.withOrigin THEN Op.origin ELSE [k \in 1..Len(q.names) |-> 0]
      back == [names |-> q.names, shape |-> q.extent, origin |-> org, extent |-> IF Op.withExtent THEN Op.extent ELSE [k \in 1..Len(q.names) |-> q.extent[k] - org[k]],
               units |-> q.units, dtype |-> q.dtype]
  IN IF Obs.error THEN Bad("conversion failed")
     ELSE IF Obs.array.names # q.names \/ Obs.array.units # q.units \/ Obs.array.dtype # q.dtype THEN Bad("wrong metadata of the labelled array")
     ELSE IF Obs.array.vals # Read(mem, addr.cells) \/ Obs.array.shape # q.extent THEN Bad("wrong values in the labelled array")
     ELSE IF MetaBad(back, Obs.meta) # "" THEN Bad(MetaBad(back, Obs.meta))
     ELSE IF Obs.vals # Read(mem, addr.cells) THEN Bad("wrong values after converting back")
     ELSE OK(S0)
(* what shows a quantity has no effect on it; its values cannot be written to *)
ShowOp ==
  LET q == objs[Op.obj]  addr == TLCEval(Address(q, "view", << >>)) IN
  IF Obs.error THEN Bad("a quantity cannot be shown")
  ELSE IF Op.how = "values" /\ (Obs.shape # q.extent \/ Obs.vals # Read(mem, addr.cells)) THEN Bad("values are not the compute domain")
  ELSE IF Op.how = "values" /\ ~Obs.frozen THEN Bad("values can be written to")
  ELSE IF Op.how = "attrs" /\ Obs.units # q.units THEN Bad("wrong units among the attributes")
  ELSE OK(S0)
Result == CASE Op.op = "show" -> ShowOp [] Op.op = "new" -> NewOp [] Op.op = "read" -> ReadOp [] Op.op = "write" -> WriteOp [] Op.op = "sel" -> SelOp
            [] Op.op = "poke" -> PokeOp [] Op.op = "toomany" -> TooManyOp [] Op.op = "transpose" -> TransposeOp [] Op.op = "convert" -> ConvertOp
(* after each operation every quantity still shows exactly the memory it stands for *)
Shown(st) == IF Len(Obs.data) # Len(st.objs) THEN "quantities were lost"
             ELSE IF \E k \in 1..Len(st.objs) : Obs.data[k] # Read(st.mem, st.objs[k].cells) THEN "elements changed that were not written, or were not shared"
             ELSE IF \E k \in 1..Len(st.objs) : MetaBad(st.objs[k], Obs.metas[k]) # "" THEN "metadata of a quantity changed" ELSE ""
Reject(clause, why) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << clause >>, why |-> why]))
Finish == /\ PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1 /\ objs' = <<>> /\ mem' = <<>> /\ handles' = <<>>
TraceInit == i \in 1..Shards /\ l = 1 /\ objs = <<>> /\ mem = <<>> /\ handles = <<>>
Step == \E x \in {TLCEval(Result)} : \E b \in {TLCEval(IF x.bad # "" THEN x.bad ELSE Shown(x.st))} :
           IF b # "" THEN Reject(b, [step |-> l, op |-> Op, obs |-> Obs]) /\ Finish
           ELSE i' = i /\ l' = l + 1 /\ objs' = x.st.objs /\ mem' = x.st.mem /\ handles' = x.st.handles
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
