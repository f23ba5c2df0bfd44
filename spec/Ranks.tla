---------------------------------- MODULE Ranks ----------------------------------
(* The arithmetic of ranks: which tile a rank belongs to, its place (row, column) on
   it, which sides of the tile it touches, and where it comes to lie when the tile is
   turned or mirrored.  Ranks count along x first, then along y, then over the tiles. *)
EXTENDS Partition

PerTile(layout) == layout[1] * layout[2]
AtPlace(j, i, layout) == j * layout[2] + i
RootOf(r, layout) == TileOfRank(r, layout) * PerTile(layout)

OnLeft(r, layout)   == Place(r, layout)[2] = 0
OnRight(r, layout)  == Place(r, layout)[2] = layout[2] - 1
OnBottom(r, layout) == Place(r, layout)[1] = 0
OnTop(r, layout)    == Place(r, layout)[1] = layout[1] - 1

(* mirrored left to right; and turned clockwise by a quarter, seen with x to the right
   and y upward: what was at the top comes to the right.  Turning needs a square.    *)
Mirrored(r, layout) == LET p == Place(r, layout) IN AtPlace(p[1], layout[2] - 1 - p[2], layout)
Turned(r, layout) == LET p == Place(r, layout) IN AtPlace(layout[1] - 1 - p[2], p[1], layout)
(* turned several times, backward where the number is negative *)
RECURSIVE TurnedBy(_, _, _)
TurnedBy(r, layout, times) ==
  IF times % 4 = 0 THEN r ELSE TurnedBy(Turned(r, layout), layout, (times % 4) - 1)
(* the questions about turns that need not be answered, and how far they turn *)
FurtherTurns == {"halfturn", "threeturns", "fullturn", "backturn", "fiveturns", "halfback"}
TimesOf(q) == CASE q = "halfturn" -> 2 [] q = "threeturns" -> 3 [] q = "fullturn" -> 4
                [] q = "backturn" -> 0 - 1 [] q = "fiveturns" -> 5 [] q = "halfback" -> 0 - 2
=================================================================================
