-------------------------------- MODULE StateFile --------------------------------
(* Files of model states (C16): what reading and writing do to a set of files.
   A state is [time, vars, held]; time is <<>> if it has none; held says whether the format
   can hold all of it (types, numbers, one length for each dimension); a variable is
   [name, dims, units, shape, values] with the values of its compute domain.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NoFile
HasTime(s) == s.time # <<>>
VarSet(s) == { s.vars[k] : k \in 1..Len(s.vars) }
(* content of a file after writing state s over content f, and whether that is refused *)
Refused(s) == ~HasTime(s) \/ ~s.held
Written(f, s) == IF Refused(s) THEN f ELSE [time |-> s.time, vars |-> VarSet(s)]
=================================================================================
