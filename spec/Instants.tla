--------------------------------- MODULE Instants ---------------------------------
(* Instants as days, seconds and microseconds after the beginning of 1970 (UTC), their
   dates in the Gregorian calendar, and units as texts (C27).                          *)
EXTENDS Integers, Sequences
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLength(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
(* the day after a date *)
Tomorrow(d) == IF d[3] < MonthLength(d[1], d[2]) THEN << d[1], d[2], d[3] + 1 >>
               ELSE IF d[2] < 12 THEN << d[1], d[2] + 1, 1 >> ELSE << d[1] + 1, 1, 1 >>
(* the date of a day, counted from 1970-01-01: years begin in March *)
Civil(n) ==
  LET z == n + 719468            \* days after 0000-03-01
      era == z \div 146097
      e == z % 146097
      yoe == (e - (e \div 1460) + (e \div 36524) - (e \div 146096)) \div 365
      doy == e - ((365*yoe + (yoe \div 4)) - (yoe \div 100))
      mp == ((5*doy) + 2) \div 153
      d == (doy - (((153*mp) + 2) \div 5)) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + (era*400) + (IF m <= 2 THEN 1 ELSE 0)
  IN << y, m, d >>
(* the fields of a date and time *)
Fields(n, s, us) == Civil(n) \o << s \div 3600, (s \div 60) % 60, s % 60, us >>

(* a text is a sequence of characters; blanks around units mean nothing *)
RECURSIVE Trim(_, _)
Trim(t, Blank) == IF t = <<>> THEN t
                  ELSE IF Head(t) \in Blank THEN Trim(Tail(t), Blank)
                  ELSE IF t[Len(t)] \in Blank THEN Trim(SubSeq(t, 1, Len(t) - 1), Blank)
                  ELSE t
Same(a, b, Blank) == Trim(a, Blank) = Trim(b, Blank)
=================================================================================
