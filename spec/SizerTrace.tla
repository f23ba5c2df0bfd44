-------------------------------- MODULE SizerTrace --------------------------------
EXTENDS Sizer, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Geo(D, h) == [k \in 1..Len(D) |-> << Origin(D[k], h), Extent(D[k]), ArrayLength(D[k], h) >>]
Bad(T, k) ==
  LET op == T.ops[k]  o == T.obs[k]  w == Geo(op.dims, T.halo)
      col(j) == [d \in 1..Len(w) |-> w[d][j]] IN
  IF o.error # "" THEN "an allocation failed"
  ELSE IF o.origin # col(1) \/ o.sizer[1] # col(1) THEN "wrong origin"
  ELSE IF "told" \in DOMAIN o /\ o.told # col(1) THEN "the allocator was told another origin"
  ELSE IF o.extent # col(2) \/ o.sizer[2] # col(2) THEN "wrong extent"
  ELSE IF o.shape # col(3) \/ o.sizer[3] # col(3) THEN "wrong array shape"
  ELSE IF o.dims # [d \in 1..Len(w) |-> op.dims[d].name] \/ o.units # op.units THEN "wrong dimension names or units"
  ELSE IF o.dtype # (IF op.dtype = "" THEN "float64" ELSE op.dtype) THEN "wrong dtype"
  ELSE IF op.fn = "zeros" /\ o.range # << 0, 0 >> THEN "not zeros"
  ELSE IF op.fn = "ones" /\ o.range # << 1, 1 >> THEN "not ones"
  ELSE IF o.shared THEN "allocations share memory"
  ELSE ""
Check(T) ==
  IF T.error # "" THEN PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << "no sizer for a valid grid" >>, why |-> T.error]))
  ELSE \E bad \in {TLCEval({ k \in 1..Len(T.ops) : Bad(T, k) # "" })} :
    IF bad = {} THEN TRUE
    ELSE LET k == CHOOSE k \in bad : TRUE IN
         PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << Bad(T, k) >>, why |-> [op |-> T.ops[k], obs |-> T.obs[k], want |-> Geo(T.ops[k].dims, T.halo)]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
