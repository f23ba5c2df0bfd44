--------------------------------- MODULE Transfer ---------------------------------
(* Scattering and gathering arrays over the ranks of a communicator (C07, C08).

   An array is [q |-> layout, d |-> flat sequence]; a layout is a sequence of
   dimensions [axis |-> "t"|"x"|"y"|"o", origin, extent, shape].  A setup S gives the
   kind of communicator and the rank layout: "tile" (one tile), "cube" (six tiles with a
   leading tile dimension in global arrays), "split" (six separate tiles).            *)
EXTENDS Partition, TLC

RECURSIVE Prod(_, _)
Prod(Q, k) == IF k > Len(Q) THEN 1 ELSE Q[k].shape * Prod(Q, k+1)
Size(Q) == Prod(Q, 1)
Strides(Q) == [k \in 1..Len(Q) |-> Prod(Q, k+1)]
Coord(Q, st, e) == [k \in 1..Len(Q) |-> ((e \div st[k]) % Q[k].shape) - Q[k].origin]
Inside(Q, c) == \A k \in 1..Len(Q) : c[k] >= 0 /\ c[k] < Q[k].extent
RECURSIVE Dot(_, _, _, _)
Dot(Q, st, c, k) == IF k > Len(Q) THEN 0 ELSE (c[k] + Q[k].origin)*st[k] + Dot(Q, st, c, k+1)
Element(Q, st, c) == Dot(Q, st, c, 1)

PerTile(S) == S.layout[1] * S.layout[2]
NRanks(S) == (IF S.kind = "tile" THEN 1 ELSE 6) * PerTile(S)
GroupSize(S) == IF S.kind = "split" THEN PerTile(S) ELSE NRanks(S)
Root(S, r) == r - (r % GroupSize(S))
IsRoot(S, r) == Root(S, r) = r
Group(S, root) == root..(root + GroupSize(S) - 1)

(* the point of the global array of which point c of rank r is a part *)
GlobalPoint(S, D, r, c) ==
  LET lo == RankLow(D, S.layout, r)
      p == [k \in 1..Len(D) |-> c[k] + lo[k]]
  IN IF S.kind = "cube" THEN << TileOfRank(r, S.layout) >> \o p ELSE p

(* array a of rank r after scattering global array g into it *)
Scattered(S, D, g, a, r) ==
  LET st == TLCEval(Strides(a.q))  gst == TLCEval(Strides(g.q)) IN
  [a EXCEPT !.d = [e \in 1..Size(a.q) |->
     LET c == Coord(a.q, st, e-1) IN
     IF Inside(a.q, c) THEN g.d[Element(g.q, gst, GlobalPoint(S, D, r, c)) + 1] ELSE a.d[e]]]

(* the parts of the ranks that make up each point of a global array: their values *)
Owners(S, D, root, p) ==
  { << r, c >> : r \in { r \in Group(S, root) :
        /\ S.kind = "cube" => TileOfRank(r, S.layout) = p[1]
        /\ LET lo == RankLow(D, S.layout, r)  hi == RankHigh(D, S.layout, r, TRUE)
               o == IF S.kind = "cube" THEN 1 ELSE 0
           IN \A k \in 1..Len(D) : lo[k] <= p[k+o] /\ p[k+o] < hi[k] }, c \in {0} }
GatherOK(S, D, root, parts, before, after) ==
  LET st == TLCEval(Strides(before.q))
      pst == TLCEval([r \in Group(S, root) |-> Strides(parts[r].q)])
      lows == TLCEval([r \in Group(S, root) |-> RankLow(D, S.layout, r)])
      o == IF S.kind = "cube" THEN 1 ELSE 0
  IN /\ Len(after.d) = Size(before.q)
     /\ \A e \in 1..Size(before.q) :
          LET p == Coord(before.q, st, e-1) IN
          IF ~Inside(before.q, p) THEN after.d[e] = before.d[e]
          ELSE \E w \in Owners(S, D, root, p) :
                 LET r == w[1]
                     c == [k \in 1..Len(D) |-> p[k+o] - lows[r][k]]
                 IN after.d[e] = parts[r].d[Element(parts[r].q, pst[r], c) + 1]

(* layouts of freshly allocated results: exactly the compute domain *)
Plain(axes, extent) == [k \in 1..Len(axes) |-> [axis |-> axes[k], origin |-> 0, extent |-> extent[k], shape |-> extent[k]]]
Axes(D) == [k \in 1..Len(D) |-> D[k].axis]
LocalLayout(S, D) == Plain(Axes(D), RankExtent(D, S.layout))
GlobalLayout(S, D) == IF S.kind = "cube" THEN Plain(<<"t">> \o Axes(D), <<6>> \o TileExtent(D))
                      ELSE Plain(Axes(D), TileExtent(D))
Blank(Q) == [q |-> Q, d |-> [e \in 1..Size(Q) |-> 0]]
=================================================================================
