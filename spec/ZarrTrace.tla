--------------------------------- MODULE ZarrTrace ---------------------------------
(* Validates what a monitor's store holds after a history (C14, C15). *)
EXTENDS Partition, FiniteSets, TLC, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k+1)
Strides(s) == [k \in 1..Len(s) |-> ProdFrom(s, k+1)]
Offset(st, c) == LET RECURSIVE go(_)
                     go(k) == IF k > Len(c) THEN 0 ELSE c[k]*st[k] + go(k+1)
                 IN go(1)
Ranks(T) == IF T.alone THEN {0} ELSE 0..(6*T.layout[1]*T.layout[2] - 1)
Stored(T) == IF T.change = "none" THEN Len(T.rows) ELSE Len(T.rows) - 1
BothWays(D) == \E a, b \in 1..Len(D) : D[a].axis = "x" /\ D[b].axis = "y"
(* the first wrong element of variable f, as a set *)
WrongElements(T, f) ==
  LET D == T.fams[f].dims   ext == TileExtent(D)   len == TLCEval(RankExtent(D, T.layout))
      n == TLCEval(ProdFrom(ext, 1))   st == TLCEval(Strides(ext))   lst == TLCEval(Strides(len))
      lows == TLCEval([r \in Ranks(T) |-> RankLow(D, T.layout, r)])
      highs == TLCEval([r \in Ranks(T) |-> RankHigh(D, T.layout, r, FALSE)])
      c(e) == [k \in 1..Len(D) |-> (e \div st[k]) % ext[k]]
      owners(t, p) == { r \in Ranks(T) : TileOfRank(r, T.layout) = t /\ \A k \in 1..Len(D) : lows[r][k] <= p[k] /\ p[k] < highs[r][k] }
      ok(row, t, e) == LET p == c(e)  w == owners(t, p)  got == T.data[f][((row-1)*6 + t)*n + e + 1] IN
                         w = {} \/ \E r \in w : got = T.vals[row][f][r+1][Offset(lst, [k \in 1..Len(D) |-> p[k] - lows[r][k]]) + 1]
      tiles == { TileOfRank(r, T.layout) : r \in Ranks(T) }
  IN { x \in (1..Stored(T)) \X tiles \X (0..(n-1)) : ~ok(x[1], x[2], x[3]) }
Sharing(T) == { k \in 1..Len(T.chunks) : Len(T.chunks[k].ranks) > 1
                  /\ (T.chunks[k].fam > 0 => BothWays(T.fams[T.chunks[k].fam].dims)) }
Bad(T) ==
  LET n == Stored(T)
      rows == IF T.change = "none" THEN n ELSE T.length   \* a refused state may have added a row
      F == 1..Len(T.fams) IN
  IF T.misuse # "" \/ T.deadlock THEN << "ranks do not agree on what to communicate", T.misuse >>
  ELSE IF T.error # "" THEN << "storing a valid state failed", T.error >>
  ELSE IF T.change # "none" /\ \E r \in 1..Len(T.refused) : ~T.refused[r] THEN << "an inconsistent state was accepted", T.change >>
  ELSE IF T.names # [f \in F |-> T.fams[f].name] THEN << "the store has other variables", T.names >>
  ELSE IF \E f \in F : T.attrs[f].dims # << "time", "tile" >> \o T.fams[f].names THEN << "wrong dimension names", T.attrs >>
  ELSE IF \E f \in F : T.attrs[f].units # T.fams[f].units THEN << "wrong units", T.attrs >>
  ELSE IF \E f \in F : T.attrs[f].dtype # T.fams[f].dtype THEN << "wrong dtype", T.attrs >>
  ELSE IF \E f \in F : \/ Tail(T.attrs[f].shape) # << 6 >> \o TileExtent(T.fams[f].dims)
                       \/ T.attrs[f].shape[1] < n \/ (T.change = "none" /\ T.attrs[f].shape[1] # n) THEN << "wrong shape", T.attrs >>
  ELSE IF T.change = "none" /\ Len(T.times) # n THEN << "wrong number of times", T.times >>
  ELSE IF Len(T.times) < n \/ SubSeq(T.times, 1, n) # SubSeq(T.rows, 1, n) THEN << "stored times do not decode to the times given", << T.times, T.timeAttrs >> >>
  ELSE IF T.calendarRead # T.calendar THEN << "wrong calendar", T.timeAttrs >>
  ELSE LET wrong == TLCEval([f \in F |-> WrongElements(T, f)]) IN
  IF \E f \in F : wrong[f] # {} THEN LET f == CHOOSE f \in F : wrong[f] # {} IN
     << "an element is not what its rank stored", [fam |-> f, first |-> CHOOSE x \in wrong[f] : TRUE, number |-> Cardinality(wrong[f])] >>
  ELSE IF Sharing(T) # {} THEN << "two ranks wrote the same chunk", T.chunks[CHOOSE k \in Sharing(T) : TRUE] >>
  ELSE <<>>
Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> b[2]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
