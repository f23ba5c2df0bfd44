------------------------------- MODULE RanksTrace -------------------------------
(* Validates answers about ranks, and what the ranks of a running cube find: who is on
   their tile and which neighbours they have.                                        *)
EXTENDS Ranks, TLC, Json, IOUtils
CONSTANT Shards
C == INSTANCE Cube
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Bit(b) == << IF b THEN 1 ELSE 0 >>

(* the file suffix of a rank: tile, digits and number within the tile, which is left out
   where a tile is one rank                                                          *)
Suffix(r, n) == << r \div n + 1, IF n = 1 THEN 0 ELSE IF r % n < 10000 THEN 4 ELSE 5, r % n >>
\* what must be answered; a string where the question must be refused
Want(T, a) ==
  LET c == IF a.inst = 0 THEN [kind |-> "", ly |-> 1, lx |-> 1] ELSE T.insts[a.inst]
      layout == <<c.ly, c.lx>>  r == a.rank IN
  CASE a.q = "subtile" -> Place(r, layout)
    [] a.q = "left" -> Bit(OnLeft(r, layout))
    [] a.q = "right" -> Bit(OnRight(r, layout))
    [] a.q = "bottom" -> Bit(OnBottom(r, layout))
    [] a.q = "top" -> Bit(OnTop(r, layout))
    [] a.q = "mirror" -> << Mirrored(r, layout) >>
    [] a.q = "noturn" -> << r >>
    [] a.q = "turn" -> << Turned(r, layout) >>
    [] a.q \in FurtherTurns -> "NotImplementedError"
    [] a.q = "tile" -> << TileOfRank(r, layout) >>
    [] a.q = "root" -> << RootOf(r, layout) >>
    [] a.q = "layout" -> layout
    [] a.q = "total" -> << (IF c.kind = "cube" THEN 6 ELSE 1) * PerTile(layout) >>
    [] a.q = "indexof" -> IF a.total % 6 # 0 THEN "ValueError" ELSE << r \div (a.total \div 6) >>
    [] a.q = "numberof" -> IF a.total % 6 # 0 THEN "ValueError" ELSE << (r \div (a.total \div 6)) + 1 >>
    [] a.q = "suffix" -> IF a.total % 6 # 0 THEN "ValueError" ELSE Suffix(r, a.total \div 6)
    [] a.q = "nontile" -> "TypeError"
\* other turns of a rank may also be answered, if they are answered rightly
AlsoFine(T, a) == a.q \in FurtherTurns /\ a.error = "" /\
  LET c == T.insts[a.inst]  layout == <<c.ly, c.lx>>  p == Place(a.rank, layout) IN
  a.value = << IF a.q = "halfturn" THEN AtPlace(c.ly - 1 - p[1], c.lx - 1 - p[2], layout)
               ELSE TurnedBy(a.rank, layout, TimesOf(a.q)) >>
Refused(a) == a.q = "nontile" \/ a.q \in FurtherTurns \/ (a.q \in {"indexof", "numberof", "suffix"} /\ a.total % 6 # 0)
AnswerOK(T, a) == IF Refused(a) THEN a.error = Want(T, a) \/ AlsoFine(T, a)
                  ELSE a.error = "" /\ a.value = Want(T, a)

(* a running cube: T.ranks[r+1] is what rank r found *)
Layout(T) == T.layout
NRanks(T) == 6 * PerTile(Layout(T))
Square(T) == T.layout[1] = T.layout[2]      \* neighbours exist for square layouts only
Neighbours(T, r) ==
  IF ~Square(T) THEN {}
  ELSE LET L == T.layout[1] IN
  { << b, C!NeighbourRank(L, r, C!DirX(b), C!DirY(b)) >> :
      b \in { x \in C!BoundaryTypes : C!HasNeighbour(L, r, C!DirX(x), C!DirY(x)) } }
ErrorOf(f) == f.error # ""
Whole(T, r) ==   \* the ranks of r's tile, row by row, as gathered on its root
  IF r % PerTile(Layout(T)) = 0 THEN [k \in 1..PerTile(Layout(T)) |-> r + k - 1] ELSE <<>>
FindWhy(T, r) == LET f == T.ranks[r + 1] IN
  IF ErrorOf(f) THEN << "a question about the own tile failed", f.error >>
  ELSE IF f.rank # r THEN << "wrong own rank", [got |-> f.rank, want |-> r] >>
  ELSE IF f.tile_rank # r % PerTile(Layout(T)) THEN << "wrong rank on the tile", [got |-> f.tile_rank, want |-> r % PerTile(Layout(T))] >>
  ELSE IF f.tile_total # PerTile(Layout(T)) THEN << "wrong number of ranks on the tile", f.tile_total >>
  ELSE IF f.tile_layout # Layout(T) THEN << "wrong layout of the tile", f.tile_layout >>
  ELSE IF f.everyone # (IF r = 0 THEN [k \in 1..NRanks(T) |-> k - 1] ELSE <<>>)
       THEN << "the cube's communicator joins other ranks", f.everyone >>
  ELSE IF f.whole # Whole(T, r) THEN << "the tile's communicator joins other ranks", [got |-> f.whole, want |-> Whole(T, r)] >>
  ELSE IF { << f.neighbours[k][1], f.neighbours[k][2] >> : k \in 1..Len(f.neighbours) } # Neighbours(T, r)
       THEN << "wrong neighbours", [got |-> f.neighbours, want |-> Neighbours(T, r)] >>
  ELSE IF ~f.from THEN << "a boundary of another rank", r >>
  ELSE <<>>

Bad(T) ==
  IF "crash" \in DOMAIN T THEN << "the answers could not be observed", T.crash >>
  ELSE IF T.kind = "ask" THEN
    LET wrong == { k \in 1..Len(T.answers) : ~AnswerOK(T, T.answers[k]) } IN
    IF wrong = {} THEN <<>>
    ELSE LET k == CHOOSE k \in wrong : \A j \in wrong : k <= j   a == T.answers[k]
         IN << "wrong answer about " \o a.q, [answer |-> k, got |-> a, want |-> ToString(Want(T, a))] >>
  ELSE IF T.stuck # "" THEN << "the ranks got stuck", T.stuck >>
  ELSE LET wrong == { r \in 0..(NRanks(T) - 1) : FindWhy(T, r) # <<>> } IN
    IF wrong = {} THEN <<>>
    ELSE LET r == CHOOSE r \in wrong : \A s \in wrong : r <= s  w == FindWhy(T, r)
         IN << w[1], [rank |-> r, found |-> w[2]] >>

Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE
  ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> b[2]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
