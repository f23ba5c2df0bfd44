--------------------------------- MODULE CornersMC ---------------------------------
(* The corner rule is what one meets walking around the vertex of the cube. *)
EXTENDS Corners
C == INSTANCE Cube
CONSTANTS MaxN
VARIABLE x
(* doubled coordinate of index c *)
Dbl(c, f) == 2*c + 1 - f
Walk(N, t, sx, sy, dir, f, u, v) ==
  LET along == IF dir = "x" THEN sx ELSE sy           \* direction of the walk, along dir
      e == N + f
      depth == Dbl(OutIx(IF dir = "x" THEN sy ELSE sx, e, IF dir = "x" THEN v ELSE u), f)
      edge == IF along = -1 THEN 0 ELSE 2*N
      side == IF dir = "x" THEN (IF sy = -1 THEN "S" ELSE "N") ELSE (IF sx = -1 THEN "W" ELSE "E")
      \* where the walk crosses the edge between the two neighbours, in the first one's coordinates
      p == IF dir = "x" THEN C!Point(N, t, side, edge, depth) ELSE C!Point(N, t, side, depth, edge)
      s1 == IF dir = "x" THEN << C!XX[t][side], C!XY[t][side] >> ELSE << C!YX[t][side], C!YY[t][side] >>
      k == IF dir = "x" THEN u ELSE v
      beyond == Dbl(OutIx(along, e, k), f) - edge      \* signed distance beyond the edge
  IN C!Resolve(N, p[1], p[2] + beyond*s1[1], p[3] + beyond*s1[2])
Rule(N, t, sx, sy, dir, f, u, v) ==
  LET s == CornerSrc(dir, sx, sy, N + f, N + f, f, f, u, v)
  IN C!Resolve(N, t, Dbl(s[1], f), Dbl(s[2], f))
Init == x \in { << N, t, sx, sy, dir, f, u, v >> : N \in 1..MaxN, t \in C!Tiles, sx \in {-1, 1}, sy \in {-1, 1},
                  dir \in {"x", "y"}, f \in 0..1, u \in 0..MaxN-1, v \in 0..MaxN-1 }
Agree == LET N == x[1] IN (x[7] + x[6] <= N /\ x[8] + x[6] <= N /\ x[7] < N /\ x[8] < N) =>
           Walk(N, x[2], x[3], x[4], x[5], x[6], x[7], x[8]) = Rule(N, x[2], x[3], x[4], x[5], x[6], x[7], x[8])
(* a broken rule: interface quantities do not skip the shared edge point *)
NoSkip == LET N == x[1]
              s == CornerSrc(x[5], x[3], x[4], N + x[6], N + x[6], 0, 0, x[7], x[8])
          IN x[7] + x[6] < N /\ x[8] + x[6] < N => Walk(N, x[2], x[3], x[4], x[5], x[6], x[7], x[8]) = C!Resolve(N, x[2], Dbl(s[1], x[6]), Dbl(s[2], x[6]))
Spec == Init /\ [][UNCHANGED x]_x
=================================================================================
