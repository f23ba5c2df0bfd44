---------------------------------- MODULE ZarrMC ----------------------------------
(* The design of the monitor's store (C14, C15), along one axis: P ranks append rows of
   an array to a chunked store without locks.  The root grows the array and broadcasts
   what the others may then write; writing part of a chunk reads it, and writes it back
   in a later step.  A state with other names or attributes is refused.             *)
EXTENDS Partition, FiniteSets, TLC
CONSTANTS Ranks, CellsPer, Iface, Rows,
          Broken     \* "" or the name of a broken design
VARIABLES row,       \* number of rows each rank has finished
          pc, todo,  \* what each rank does with its current row, chunks it still has to write
          seen,      \* number of rows each rank knows the array to have
          length,    \* number of rows of the array
          store,     \* << row, chunk >> -> the elements of the chunk
          held,      \* the chunk a rank has read and not yet written
          sharing    \* two ranks have written one chunk
vars == << row, pc, todo, seen, length, store, held, sharing >>
E == Ranks * CellsPer
N == TilePoints(E, Iface)
R == 0..(Ranks - 1)
Chunk == IF Broken = "chunks over points" THEN (N + Ranks - 1) \div Ranks
         ELSE IF Broken = "one chunk" THEN N ELSE CellsPer
Chunks == 0..((N + Chunk - 1) \div Chunk - 1)
Points(c) == { x \in 0..(N-1) : x \div Chunk = c }
Mine(r) == { x \in 0..(N-1) : Owns(E, Ranks, r, Iface, Broken = "overlap", x) }
Needs(r) == { c \in Chunks : Points(c) \cap Mine(r) # {} }
Value(k, r, x) == 100*k + 10*x + r
Nothing == 0
Init == /\ row = [r \in R |-> 0] /\ pc = [r \in R |-> "sync"] /\ todo = [r \in R |-> {}] /\ seen = [r \in R |-> 0]
        /\ length = 0 /\ store = [k \in (0..(Rows-1)) \X Chunks |-> [x \in Points(k[2]) |-> Nothing]]
        /\ held = [r \in R |-> [c |-> -1, by |-> {}]] /\ sharing = FALSE
Grow == /\ pc[0] = "sync" /\ row[0] < Rows
        /\ length' = IF length > row[0] THEN length ELSE row[0] + 1
        /\ seen' = [seen EXCEPT ![0] = length']
        /\ pc' = [pc EXCEPT ![0] = "write"] /\ todo' = [todo EXCEPT ![0] = Needs(0)]
        /\ UNCHANGED << row, store, held, sharing >>
(* a rank leaves a broadcast once the root has entered it *)
Sync(r) == /\ r # 0 /\ pc[r] = "sync" /\ row[r] < Rows
           /\ IF Broken = "no broadcast" THEN seen' = [seen EXCEPT ![r] = length]
              ELSE (row[0] > row[r] \/ (row[0] = row[r] /\ pc[0] # "sync")) /\ seen' = [seen EXCEPT ![r] = row[r] + 1]
           /\ pc' = [pc EXCEPT ![r] = "write"] /\ todo' = [todo EXCEPT ![r] = Needs(r)]
           /\ UNCHANGED << row, length, store, held, sharing >>
Read(r) == /\ pc[r] = "write" /\ held[r].c = -1
           /\ \E c \in todo[r] : held' = [held EXCEPT ![r] = [c |-> c, by |-> store[<< row[r], c >>]]]
           /\ UNCHANGED << row, pc, todo, seen, length, store, sharing >>
Write(r) == /\ pc[r] = "write" /\ held[r].c # -1
            /\ LET k == << row[r], held[r].c >> IN
               /\ store' = [store EXCEPT ![k] = [x \in Points(held[r].c) |-> IF x \in Mine(r) THEN Value(row[r], r, x) ELSE held[r].by[x]]]
               /\ sharing' = (sharing \/ \E q \in R \ {r} : held[r].c \in Needs(q))
            /\ todo' = [todo EXCEPT ![r] = @ \ {held[r].c}]
            /\ held' = [held EXCEPT ![r] = [c |-> -1, by |-> {}]]
            /\ IF todo'[r] = {} THEN row' = [row EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "sync"] ELSE UNCHANGED << row, pc >>
            /\ UNCHANGED << seen, length >>
Done == (\A r \in R : row[r] = Rows) /\ UNCHANGED vars
Next == Grow \/ (\E r \in R : Sync(r) \/ Read(r) \/ Write(r)) \/ Done
Spec == Init /\ [][Next]_vars
Owner(x) == IF x = E THEN Ranks - 1 ELSE x \div CellsPer
InRange == \A r \in R : pc[r] = "write" => row[r] < seen[r]
NoSharing == ~sharing
(* when the ranks have finished a row, it holds what its owners stored, and stays so *)
Complete == \A k \in 0..(Rows-1), x \in 0..(N-1) :
              (\A r \in R : row[r] > k) => store[<< k, x \div Chunk >>][x] = Value(k, Owner(x), x)
=================================================================================
