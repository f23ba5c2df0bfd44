---------------------------------- MODULE Values ----------------------------------
(* How numbered elements are held in arrays of different types.  Element w (negative: its
   negation) is held as itself where the type is wide enough, else modulo a number; if
   the array is to have special values, one in four elements is no number at all and one
   in four is infinite.  NaN, Inf are the codes under which the drivers report these.  *)
EXTENDS Integers
NaN == 777777777
Inf == 777777778
Floats == {"float64", "float32", "float16"}
Modulus(dtype) == CASE dtype = "bool" -> 2 [] dtype = "int8" -> 113 [] dtype = "uint8" -> 251
                    [] dtype = "int16" -> 30011 [] dtype = "float16" -> 2039 [] OTHER -> 0
Special(dtype, flag) == flag /\ dtype \in Floats
Held(mod, special, w) ==
  LET a == IF w < 0 THEN -w ELSE w
      s == IF w < 0 THEN -1 ELSE 1 IN
  IF special /\ a % 4 = 0 THEN NaN
  ELSE IF special /\ a % 4 = 1 THEN s * Inf
  ELSE IF mod = 0 THEN w ELSE s * (a % mod)
==================================================================================
