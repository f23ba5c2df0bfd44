------------------------------- MODULE StateFileMC -------------------------------
(* Any history of writing leaves each file with the last state accepted for it. *)
EXTENDS StateFile
CONSTANTS MaxSteps, Careless      \* Careless: a broken design that starts writing before it looks for a time
VARIABLES files, last, n
States == [time : { <<>>, <<1>>, <<2>> }, vars : { <<>>, << "a" >>, << "b" >>, << "a", "b" >>, << "b", "a" >> }, held : BOOLEAN]
Init == files = << NoFile, NoFile >> /\ last = << NoFile, NoFile >> /\ n = 0
Write(f, s) == /\ n < MaxSteps /\ n' = n + 1
               /\ files' = [files EXCEPT ![f] = IF Careless /\ Refused(s) THEN NoFile ELSE Written(@, s)]
               /\ last' = IF Refused(s) THEN last ELSE [last EXCEPT ![f] = s]
Next == \E f \in 1..2, s \in States : Write(f, s)
Spec == Init /\ [][Next]_<< files, last, n >>
Reads == \A f \in 1..2 : IF last[f] = NoFile THEN files[f] = NoFile
                         ELSE files[f] # NoFile /\ files[f].time = last[f].time /\ files[f].vars = VarSet(last[f]) /\ files[f].time # <<>>
=================================================================================
