-------------------------------- MODULE CaptureMC --------------------------------
(* Capturing streams with a table of file descriptors: a capture duplicates the stream's
   descriptor, opens a temporary file, and puts that in place of the stream; leaving it
   puts the duplicate back and closes both.  Checked against what should have been
   captured, with nesting, two streams and exceptions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fds, MaxOps, MaxOpen, Broken
Streams == {1, 2}
VARIABLES F, files, open, ops, ideal, results
vars == << F, files, open, ops, ideal, results >>
(* open files are numbered; 1 and 2 are the original destinations *)
Init == /\ F = [d \in Fds |-> IF d \in Streams THEN d ELSE 0] /\ files = << <<>>, <<>> >> /\ open = <<>> /\ ops = 0
        /\ ideal = << <<>>, <<>> >> /\ results = <<>>
Free(T) == { d \in Fds : T[d] = 0 }
Lowest(S) == CHOOSE d \in S : \A e \in S : d <= e
Op == ops < MaxOps /\ ops' = ops + 1
Enter(s) == /\ Op /\ Len(open) < MaxOpen
            /\ LET o == Lowest(Free(F))  t == Lowest(Free([F EXCEPT ![o] = 99]))  n == Len(files) + 1 IN
               /\ F' = [F EXCEPT ![o] = F[s], ![t] = n, ![s] = n]
               /\ files' = Append(files, <<>>) /\ ideal' = Append(ideal, <<>>)
               /\ open' = Append(open, [s |-> s, o |-> o, t |-> t, file |-> n])
               /\ UNCHANGED results
(* where a write to a stream should go: the innermost open capture of it *)
Target(s) == LET C == { k \in 1..Len(open) : open[k].s = s } IN IF C = {} THEN s ELSE open[CHOOSE k \in C : \A j \in C : j <= k].file
Write(s) == /\ Op /\ files' = [files EXCEPT ![F[s]] = Append(@, ops)] /\ ideal' = [ideal EXCEPT ![Target(s)] = Append(@, ops)]
            /\ UNCHANGED << F, open, results >>
(* the innermost capture of a stream is left *)
Leave(k, exc) == /\ Op /\ \A j \in (k+1)..Len(open) : open[j].s # open[k].s
                 /\ LET c == open[k] IN
                    /\ F' = IF exc /\ Broken = "exception" THEN F
                            ELSE [d \in Fds |-> IF d = c.s THEN F[c.o] ELSE IF d = c.t \/ (d = c.o /\ Broken # "leak") THEN 0 ELSE F[d]]
                    /\ results' = Append(results, << c.file, files[c.file] >>)
                 /\ open' = SubSeq(open, 1, k-1) \o SubSeq(open, k+1, Len(open)) /\ UNCHANGED << files, ideal >>
Next == \/ \E s \in Streams : (Cardinality(Free(F)) >= 2 /\ Enter(s)) \/ Write(s)
        \/ \E k \in 1..Len(open), exc \in BOOLEAN : Leave(k, exc)
Spec == Init /\ [][Next]_vars
Inv == /\ files = ideal
       /\ \A k \in 1..Len(results) : results[k][2] = ideal[results[k][1]]
       /\ open = <<>> => F = [d \in Fds |-> IF d \in Streams THEN d ELSE 0]
=================================================================================
