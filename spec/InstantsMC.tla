------------------------------- MODULE InstantsMC -------------------------------
(* A calendar that goes from day to day agrees with the formula for the date of a day;
   equality of units is an equivalence.                                               *)
EXTENDS Instants, FiniteSets
CONSTANTS Before, Last, MaxText, Naive
VARIABLES n, d
Init == n = 0 - Before /\ d = Civil(0 - Before)
Next == n < Last /\ n' = n + 1 /\ d' = IF Naive /\ d[2] = 2 /\ d[3] = 28 /\ d[1] % 4 = 0 THEN << d[1], 2, 29 >> ELSE Tomorrow(d)
Agree == d = Civil(n) /\ (n = 0 => d = << 1970, 1, 1 >>) /\ (n = 11016 => d = << 2000, 2, 29 >>)
Blanks == {" ", "t"}
Texts == UNION { [1..k -> {" ", "t", "a", "b"}] : k \in 0..MaxText }
ASSUME \A a, b \in Texts :
  /\ Same(a, a, Blanks) /\ (Same(a, b, Blanks) <=> Same(b, a, Blanks))
  /\ Same(a, << " " >> \o b, Blanks) = Same(a, b, Blanks) /\ Same(a \o << "t" >>, b, Blanks) = Same(a, b, Blanks)
  /\ Trim(Trim(a, Blanks), Blanks) = Trim(a, Blanks)
Spec == Init /\ [][Next]_<< n, d >>
=================================================================================
