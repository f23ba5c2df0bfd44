---------------------------------- MODULE Restart ----------------------------------
(* Which variables and values each rank gets from a directory of restart files. *)
EXTENDS Partition, FiniteSets, TLC
Member(x, s) == \E k \in 1..Len(s) : s[k] = x
(* S: a scenario; variables that have metadata, and are selected *)
Known(S, v) == v.name # "" /\ (v.tracer => S.tracers)
Selected(S, name) == ~S.select \/ Member(name, S.only)
Loaded(S) == { k \in 1..Len(S.vars) : Known(S, S.vars[k]) /\ Selected(S, S.vars[k].name) }
HasTime(S) == S.coupler /\ Selected(S, "time")
RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k+1)
Strides(s) == [k \in 1..Len(s) |-> ProdFrom(s, k+1)]
RECURSIVE Dot(_, _, _)
Dot(st, c, k) == IF k > Len(c) THEN 0 ELSE st[k]*c[k] + Dot(st, c, k+1)
(* the flat sequence of values of variable v (whose first value on tile 0 is base, and
   whose values are consecutive in the file and from tile to tile) on rank r *)
Part(S, v, base, r) ==
  LET D == v.dims  ext == TileExtent(D)  st == TLCEval(Strides(ext))  n == TLCEval(ProdFrom(ext, 1))
      len == TLCEval(RankExtent(D, S.layout))  lst == TLCEval(Strides(len))  lo == TLCEval(RankLow(D, S.layout, r))  t == TileOfRank(r, S.layout)
  IN [e \in 1..ProdFrom(len, 1) |-> base + t*n + Dot(st, [k \in 1..Len(D) |-> lo[k] + (((e-1) \div lst[k]) % len[k])], 1)]
=================================================================================
