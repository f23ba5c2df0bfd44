--------------------------------- MODULE QuantityMC ---------------------------------
(* Laws of the specification itself, for every small quantity of two dimensions. *)
EXTENDS Quantity, TLC
CONSTANT N
VARIABLES q, v
Names == { << "x", "y" >>, << "y_interface", "x" >>, << "z", "x_interface" >>, << "y", "tracer" >> }
Geo == { g \in (0..1) \X (1..N) \X (1..N+1) : g[1] + g[2] <= g[3] }
Quantities == { [names |-> n, shape |-> << a[3], b[3] >>, origin |-> << a[1], b[1] >>, extent |-> << a[2], b[2] >>,
                 cells |-> [e \in 1..(a[3]*b[3]) |-> e], units |-> "", dtype |-> ""] : n \in Names, a \in Geo, b \in Geo }
Views == {"view", "interior", "northwest", "northeast", "southwest", "southeast"}
Opt(S) == { << >> } \cup { << x >> : x \in S }
Indices == { [int |-> TRUE, at |-> i, a |-> << >>, b |-> << >>, s |-> << >>] : i \in -1..1 }
           \cup { [int |-> FALSE, at |-> 0, a |-> a, b |-> b, s |-> s] : a \in Opt(0..1), b \in Opt({-1, 1}), s \in {<<>>, <<2>>} }
Swap == << 2, 1 >>
Transposed(a) == LET s == a.shape IN
  IF Len(s) < 2 THEN a
  ELSE [shape |-> << s[2], s[1] >>,
        cells |-> [e \in 1..Len(a.cells) |-> a.cells[1 + ((e-1) % s[1])*s[2] + ((e-1) \div s[1])]]]
Laws ==
  /\ Permute(Permute(q, Swap), Swap) = q
  /\ v # "" => \A i, j \in Indices :
       Defined(q, v, << i, j >>) =>
         LET a == Address(q, v, << i, j >>) IN
         /\ Len(a.cells) = Total(a.shape)
         /\ Cardinality({ a.cells[e] : e \in 1..Len(a.cells) }) = Len(a.cells)
         \* indexing commutes with transposition
         /\ Address(Permute(q, Swap), v, << j, i >>) = Transposed(a)
         \* selection by name is independent of the dimension order
         /\ Address(q, v, ByName(q, << [name |-> q.names[2], ix |-> j], [name |-> q.names[1], ix |-> i] >>)) = a
         /\ j = All => Address(q, v, << i >>) = a
  \* every view's default is the compute domain; interior[0:0] too
  /\ \A w \in Views : Address(q, w, << >>) = Address(q, "view", << >>)
  /\ LET z == [All EXCEPT !.a = <<0>>, !.b = <<0>>] IN Address(q, "interior", << z, z >>) = Address(q, "view", << >>)
Init == q \in Quantities /\ v = ""
Next == v = "" /\ v' \in Views /\ q' = q
Spec == Init /\ [][Next]_<<q, v>>
=================================================================================
