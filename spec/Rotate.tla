----------------------------------- MODULE Rotate -----------------------------------
(* Rotating fields given as arrays (C12).

   An array is [axes, shape, d]: axes is a sequence of "x", "y", "o" in which x and y
   occur at most once; x points right and y up.  Rotating clockwise by n quarter turns
   moves the value at every point to where the turned point lies.  An array with one
   horizontal axis becomes one along the other axis when turned by an odd number.    *)
EXTENDS Integers, Sequences, TLC

RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k+1)
Has(A, ax) == \E k \in 1..Len(A.axes) : A.axes[k] = ax
At(A, ax) == CHOOSE k \in 1..Len(A.axes) : A.axes[k] = ax
Quarter(n) == ((n % 4) + 4) % 4
(* one clockwise quarter turn about the centre: up becomes right, right becomes down *)
TurnOnce(v) == << v[2], -v[1] >>
RECURSIVE Turn(_, _)
Turn(v, n) == IF n = 0 THEN v ELSE Turn(TurnOnce(v), n - 1)
Unturn(v, n) == Turn(v, (4 - n) % 4)
SwapName(ax) == IF ax = "x" THEN "y" ELSE IF ax = "y" THEN "x" ELSE ax
(* array A turned clockwise by n quarter turns *)
Turned(A, nn) ==
  LET n == Quarter(nn)
      odd == n % 2 = 1
      both == Has(A, "x") /\ Has(A, "y")
      axes == IF odd /\ ~both THEN [k \in 1..Len(A.axes) |-> SwapName(A.axes[k])] ELSE A.axes
      shape == IF odd /\ both THEN [A.shape EXCEPT ![At(A, "x")] = A.shape[At(A, "y")], ![At(A, "y")] = A.shape[At(A, "x")]] ELSE A.shape
      B == [axes |-> axes, shape |-> shape]
      st == TLCEval([k \in 1..Len(shape) |-> ProdFrom(shape, k+1)])
      ost == TLCEval([k \in 1..Len(A.shape) |-> ProdFrom(A.shape, k+1)])
      \* twice the offset from the centre; zero along an axis that the array does not have
      Off(X, c, ax) == IF Has(X, ax) THEN 2*c[At(X, ax)] - (X.shape[At(X, ax)] - 1) ELSE 0
      Src(e) == LET c == [k \in 1..Len(shape) |-> (e \div st[k]) % shape[k]]
                    v == Unturn(<< Off(B, c, "x"), Off(B, c, "y") >>, n)
                    o == [k \in 1..Len(A.shape) |-> CASE A.axes[k] = "x" -> (v[1] + A.shape[k] - 1) \div 2
                                                      [] A.axes[k] = "y" -> (v[2] + A.shape[k] - 1) \div 2 [] OTHER -> c[k]]
                    RECURSIVE F(_)
                    F(k) == IF k > Len(o) THEN 0 ELSE o[k]*ost[k] + F(k+1)
                IN F(1)
  IN [axes |-> axes, shape |-> shape, d |-> [e \in 1..Len(A.d) |-> A.d[Src(e-1) + 1]]]
Scaled(A, s) == [A EXCEPT !.d = [e \in 1..Len(A.d) |-> s * A.d[e]]]
(* components of a vector turned clockwise: << x, y >> in terms of the old ones, each as
   << which, sign >>                                                                  *)
Comps(nn) == CASE Quarter(nn) = 0 -> << <<1, 1>>, <<2, 1>> >>  [] Quarter(nn) = 1 -> << <<2, 1>>, <<1, -1>> >>
               [] Quarter(nn) = 2 -> << <<1, -1>>, <<2, -1>> >> [] Quarter(nn) = 3 -> << <<2, -1>>, <<1, 1>> >>
(* a vector field << x, y >> of arrays, turned: values move and components turn *)
TurnedVector(V, n) ==
  LET c == Comps(n)  T == << Turned(V[1], n), Turned(V[2], n) >>
  IN << Scaled(T[c[1][1]], c[1][2]), Scaled(T[c[2][1]], c[2][2]) >>
(* only the components turn *)
InPlace(V, n) == LET c == Comps(n) IN << Scaled(V[c[1][1]], c[1][2]), Scaled(V[c[2][1]], c[2][2]) >>
=================================================================================
