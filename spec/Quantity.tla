---------------------------------- MODULE Quantity ----------------------------------
(* Quantities as windows on memory (C09, C10).

   A quantity is [names, shape, origin, extent, cells, units, dtype]: cells lists, in C
   order, the memory cell of each array element.  Two quantities that share data have
   cells in common.  Memory is a sequence of values.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k+1)
Total(s) == ProdFrom(s, 1)
CStrides(s) == [k \in 1..Len(s) |-> ProdFrom(s, k+1)]
(* coordinate (from 0) of the e-th element (from 0) of an array of shape s *)
CoordOf(s, st, e) == [k \in 1..Len(s) |-> (e \div st[k]) % s[k]]
RECURSIVE SumDot(_, _, _)
SumDot(a, b, k) == IF k > Len(a) THEN 0 ELSE a[k]*b[k] + SumDot(a, b, k+1)
Flat(st, c) == SumDot(st, c, 1)

IsX(n) == n \in {"x", "x_interface"}
IsY(n) == n \in {"y", "y_interface"}
(* the offsets that a view adds to the starts (and single indices) and to the ends *)
StartOff(v, n, o, e) ==
  IF v \in {"northeast", "southeast"} /\ IsX(n) THEN o + e
  ELSE IF v \in {"northwest", "northeast"} /\ IsY(n) THEN o + e ELSE o
StopOff(v, n, o, e) == IF v = "interior" THEN o + e ELSE StartOff(v, n, o, e)

Min2(a, b) == IF a < b THEN a ELSE b
(* positions in the array addressed by one index: [int |-> TRUE, at] or
   [int |-> FALSE, a, b, s] where a, b, s are << >> for a default                   *)
Positions(q, v, k, ix) ==
  LET n == q.names[k]  o == q.origin[k]  e == q.extent[k] IN
  IF ix.int THEN << ix.at + StartOff(v, n, o, e) >>
  ELSE LET lo == IF ix.a = << >> THEN o ELSE ix.a[1] + StartOff(v, n, o, e)
           hi == Min2(q.shape[k], IF ix.b = << >> THEN o + e ELSE ix.b[1] + StopOff(v, n, o, e))
           s  == IF ix.s = << >> THEN 1 ELSE ix.s[1]
       IN IF hi <= lo THEN << >> ELSE [j \in 1..((hi - lo + s - 1) \div s) |-> lo + (j-1)*s]
All == [int |-> FALSE, at |-> 0, a |-> << >>, b |-> << >>, s |-> << >>]
Fill(q, idx) == [k \in 1..Len(q.names) |-> IF k <= Len(idx) THEN idx[k] ELSE All]
(* specified only where no negative position arises *)
Defined(q, v, idx) ==
  \A k \in 1..Len(idx) :
    LET n == q.names[k]  o == q.origin[k]  e == q.extent[k]  ix == idx[k] IN
    IF ix.int THEN ix.at + StartOff(v, n, o, e) \in 0..(q.shape[k]-1)
    ELSE /\ ix.a = << >> \/ ix.a[1] + StartOff(v, n, o, e) >= 0
         /\ ix.b = << >> \/ ix.b[1] + StopOff(v, n, o, e) >= 0

(* the addressed elements: shape of the result and its cells in C order *)
Address(q, v, idx) ==
  LET full == Fill(q, idx)
      pos == TLCEval([k \in 1..Len(q.names) |-> Positions(q, v, k, full[k])])
      cnt == TLCEval([k \in 1..Len(q.names) |-> Len(pos[k])])
      st == TLCEval(CStrides(q.shape))  rst == TLCEval(CStrides(cnt))
      kept == SelectSeq([k \in 1..Len(q.names) |-> k], LAMBDA k : ~full[k].int)
  IN [shape |-> [j \in 1..Len(kept) |-> cnt[kept[j]]],
      cells |-> [e \in 1..Total(cnt) |->
                   LET c == CoordOf(cnt, rst, e-1)
                   IN q.cells[1 + Flat(st, [k \in 1..Len(cnt) |-> pos[k][c[k]+1]])]]]
(* selecting by name: entries are [name, ix]; other dimensions are taken whole *)
ByName(q, sel) ==
  [k \in 1..Len(q.names) |-> IF \E j \in 1..Len(sel) : sel[j].name = q.names[k]
                             THEN sel[CHOOSE j \in 1..Len(sel) : sel[j].name = q.names[k]].ix ELSE All]

Read(mem, cells) == [e \in 1..Len(cells) |-> mem[cells[e]]]
InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x
Write(mem, cells, vals) ==
  LET at == [c \in { cells[e] : e \in 1..Len(cells) } |-> CHOOSE e \in 1..Len(cells) : cells[e] = c]
  IN [c \in 1..Len(mem) |-> IF c \in DOMAIN at THEN vals[at[c]] ELSE mem[c]]

(* transposing: targets are groups of alternative names *)
Matches(q, g) == { k \in 1..Len(q.names) : InSeq(q.names[k], g) }
TransposeFails(q, targets) == \E j \in 1..Len(targets) : Cardinality(Matches(q, targets[j])) # 1
Order(q, targets) == [j \in 1..Len(targets) |-> CHOOSE k \in Matches(q, targets[j]) : TRUE]
Permute(q, p) ==
  LET sh == TLCEval([j \in 1..Len(p) |-> q.shape[p[j]]])
      st == TLCEval(CStrides(q.shape))  rst == TLCEval(CStrides(sh))
      inv == [k \in 1..Len(p) |-> CHOOSE j \in 1..Len(p) : p[j] = k]
  IN [q EXCEPT !.names = [j \in 1..Len(p) |-> q.names[p[j]]], !.shape = sh,
               !.origin = [j \in 1..Len(p) |-> q.origin[p[j]]],
               !.extent = [j \in 1..Len(p) |-> q.extent[p[j]]],
               !.cells = [e \in 1..Total(sh) |->
                  LET c == CoordOf(sh, rst, e-1) IN q.cells[1 + Flat(st, [k \in 1..Len(p) |-> c[inv[k]]])]]]
=================================================================================
