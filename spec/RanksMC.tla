--------------------------------- MODULE RanksMC ---------------------------------
(* Exhaustive checks of the arithmetic of ranks, and that it fits the geometry of the
   cube: every layout up to MaxL x MaxL and every rank of a cube made of such tiles.  *)
EXTENDS Ranks, TLC
CONSTANTS MaxL, Broken
C == INSTANCE Cube
VARIABLES layout, r
Init == \E a \in 1..MaxL, b \in 1..MaxL : layout = <<a, b>> /\ r \in 0..(6*a*b - 1)
Next == FALSE /\ UNCHANGED <<layout, r>>
Spec == Init /\ [][Next]_<<layout, r>>

N == PerTile(layout)
w == r % N                    \* within the tile
P == Place(r, layout)
Turn(q) == IF Broken = "counterclockwise" THEN LET p == Place(q, layout) IN AtPlace(p[2], layout[2] - 1 - p[1], layout)
           ELSE Turned(q, layout)
Mirror(q) == IF Broken = "upsidedown" THEN LET p == Place(q, layout) IN AtPlace(layout[1] - 1 - p[1], p[2], layout)
             ELSE Mirrored(q, layout)

(* rank <-> (tile, row, column) is one to one *)
OneToOne == /\ TileOfRank(r, layout) \in 0..5 /\ P[1] \in 0..(layout[1]-1) /\ P[2] \in 0..(layout[2]-1)
            /\ r = RootOf(r, layout) + AtPlace(P[1], P[2], layout)
            /\ Place(RootOf(r, layout), layout) = <<0, 0>>
            /\ RootOf(r, layout) <= r /\ r < RootOf(r, layout) + N
(* a rank touches as many sides as its place demands *)
Sides == /\ (OnLeft(r, layout) /\ OnRight(r, layout)) <=> layout[2] = 1
         /\ (OnBottom(r, layout) /\ OnTop(r, layout)) <=> layout[1] = 1
Square == layout[1] = layout[2]
Moves == /\ Mirror(w) \in 0..(N-1) /\ Mirror(Mirror(w)) = w
         /\ Square => /\ Turn(w) \in 0..(N-1) /\ Turn(Turn(Turn(Turn(w)))) = w
                      \* mirroring reverses the sense of turning
                      /\ Mirror(Turn(Mirror(Turn(w)))) = w
         \* mirroring swaps left and right and leaves top and bottom
         /\ (OnLeft(w, layout) <=> OnRight(Mirror(w), layout))
         /\ (OnTop(w, layout) <=> OnTop(Mirror(w), layout))
         \* a clockwise quarter takes the top to the right and the right to the bottom
         /\ Square => /\ (OnTop(w, layout) <=> OnRight(Turn(w), layout))
                      /\ (OnRight(w, layout) <=> OnBottom(Turn(w), layout))
(* the same ranks as those of the cube's geometry; sides are where the tile ends; and
   over an edge with one clockwise turn lies the mirror image of the turned rank     *)
Geometry == Square => LET L == layout[1] IN
  /\ TileOfRank(r, layout) = C!TileOf(L, r) /\ P = << C!RowOf(L, r), C!ColOf(L, r) >>
  /\ \A d \in { <<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>> } :
       LET to == C!NeighbourRank(L, r, d[1], d[2])
           out == CASE d = <<-1, 0>> -> OnLeft(r, layout) [] d = <<1, 0>> -> OnRight(r, layout)
                    [] d = <<0, -1>> -> OnBottom(r, layout) [] OTHER -> OnTop(r, layout)
       IN /\ out <=> TileOfRank(to, layout) # TileOfRank(r, layout)
          /\ C!NeighbourTurns(L, r, d[1], d[2]) = 1 => to % N = Mirror(Turn(w))
(* turning further goes on from there, and all the way round comes back *)
Further == Square => /\ TurnedBy(w, layout, 4) = w /\ TurnedBy(w, layout, 0 - 1) = TurnedBy(w, layout, 3)
                     /\ Turned(TurnedBy(w, layout, 0 - 1), layout) = w
                     /\ LET p == Place(w, layout) IN
                        TurnedBy(w, layout, 2) = AtPlace(layout[1] - 1 - p[1], layout[2] - 1 - p[2], layout)
Inv == Further /\ OneToOne /\ Sides /\ Moves /\ Geometry
=================================================================================
