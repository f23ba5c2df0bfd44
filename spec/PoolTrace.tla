-------------------------------- MODULE PoolTrace --------------------------------
(* Validates histories of using buffers.  arr: contents of the arrays (<<>>: unknown);
   held: open block -> [buf, array, kind, direct, data]. *)
EXTENDS Pool, Values, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, pool, arr, held, hits     \* hits: of "pack" and "unpack" in the timer that is on
vars == << i, l, pool, arr, held, hits >>
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Ravel(n, dtype) ==
  LET m == Modulus(dtype)   special == T.special /\ dtype \in Floats \cup {">f8"} IN
  [k \in 1..n |-> IF Op.zero THEN 0 ELSE Held(m, special, 1000*l + k)]
Acq == Op.op = "acquire"
None == Acq /\ Op.kind # "array" /\ Op.array = 0
Direct == Acq /\ Op.array # 0 /\ Obs.contiguousArray
Spec_ == IF Op.kind = "array" THEN [shape |-> Op.shape, dtype |-> Op.dtype] ELSE [shape |-> T.arrays[Op.array].shape, dtype |-> T.arrays[Op.array].dtype]
Key == [shape |-> Spec_.shape, dtype |-> Spec_.dtype, alloc |-> Op.alloc]
(* the buffer that was handed out: its number among all the memory ever seen *)
B == Obs.buffer
PoolAfter == IF Acq /\ ~None /\ ~Direct THEN (IF B \in pool.free THEN Reuse([pool EXCEPT !.made = (B :> Key) @@ @], Op.no, B) ELSE Make(pool, Op.no, B, Key))
             ELSE IF Op.op = "release" /\ Op.no \in DOMAIN pool.held THEN Release(pool, Op.no) ELSE pool
Taken == IF Acq /\ ~None /\ ~Direct THEN
           (IF Obs.overlaps # <<>> THEN "a buffer in use was handed out again"
            ELSE IF B \in { pool.held[x] : x \in DOMAIN pool.held } THEN "a buffer in use was handed out again"
            ELSE IF Obs.shape # Key.shape \/ Obs.dtype # Key.dtype THEN "a buffer with wrong shape or dtype"
            ELSE IF Obs.alloc # Key.alloc THEN "a buffer of another allocator"
            ELSE IF ~Obs.contiguous THEN "a buffer that is not contiguous"
            ELSE IF Op.kind = "send" /\ Obs.data # arr[Op.array] /\ arr[Op.array] # <<>> THEN "a send buffer with other values than the array" ELSE "")
         ELSE IF Direct THEN (IF ~Obs.isArray THEN "a contiguous array was not used directly" ELSE "")
         ELSE IF None THEN (IF ~Obs.isNone THEN "nothing was not passed through" ELSE "") ELSE ""
HeldAfter ==
  CASE Acq -> (Op.no :> [array |-> Op.array, timer |-> Op.timer, kind |-> Op.kind, direct |-> Direct, none |-> None, n |-> IF None THEN 0 ELSE Prod(Spec_.shape), dtype |-> IF None THEN "" ELSE Spec_.dtype,
                         data |-> IF None THEN <<>> ELSE IF Op.kind = "send" THEN arr[Op.array] ELSE IF Direct THEN arr[Op.array] ELSE <<>>]) @@ held
    [] Op.op = "write" -> [held EXCEPT ![Op.no].data = Ravel(held[Op.no].n, held[Op.no].dtype)]
    [] Op.op = "release" -> Remove(held, Op.no)
    [] OTHER -> held
ArrAfter ==
  CASE Op.op = "write" /\ held[Op.no].direct -> [arr EXCEPT ![held[Op.no].array] = Ravel(held[Op.no].n, held[Op.no].dtype)]
    [] Op.op = "release" /\ held[Op.no].kind = "recv" /\ ~held[Op.no].none /\ ~held[Op.no].direct ->
         \* after an exception nobody says what is in the array
         [arr EXCEPT ![held[Op.no].array] = IF Op.exc THEN <<>> ELSE held[Op.no].data]
    [] OTHER -> arr
(* a copy that is made under a timer that is on is counted; elsewhere nothing is *)
Packed == Acq /\ ~None /\ ~Direct /\ Op.kind = "send" /\ Op.timer = "on"
Unpacked == Op.op = "release" /\ held[Op.no].kind = "recv" /\ ~held[Op.no].none /\ ~held[Op.no].direct /\ held[Op.no].timer = "on" /\ ~Op.exc
Timing == IF ~Obs.idle THEN "a clock was left running"
          ELSE IF Obs.hits[2] # << 0, 0 >> \/ Obs.hits[3] # << 0, 0 >> THEN "a timer that is off recorded something"
          ELSE IF (Packed /\ Obs.hits[1][1] <= hits[1]) \/ (Unpacked /\ Obs.hits[1][2] <= hits[2]) THEN "a copy was not timed" ELSE ""
Shown(o) == { o[k].no : k \in 1..Len(o) }
Bad == IF Obs.error THEN "an error was raised"
       ELSE IF Taken # "" THEN Taken
       ELSE IF \E k \in 1..Len(ArrAfter) : ArrAfter[k] # <<>> /\ ArrAfter[k] # Obs.arrays[k]
            THEN (IF Op.op = "release" THEN "an array without what was received" ELSE "an array was changed")
       ELSE IF Shown(Obs.buffers) # { n \in DOMAIN HeldAfter : ~HeldAfter[n].none } THEN "blocks differ"
       ELSE IF \E k \in 1..Len(Obs.buffers) : LET d == HeldAfter[Obs.buffers[k].no].data IN d # <<>> /\ d # Obs.buffers[k].data
            THEN "a buffer in use was changed"
       ELSE IF ~Obs.around THEN "memory around an array was changed" ELSE Timing
Reject(c) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << c >>, why |-> [step |-> l, op |-> Op, obs |-> Obs]]))
Finish == /\ PrintT("@DONE " \o ToJson(T.id)) /\ i' = i + Shards /\ l' = 1 /\ pool' = Empty /\ held' = << >> /\ hits' = << 0, 0 >>
          /\ arr' = IF i + Shards <= Len(Trace) THEN Trace[i + Shards].first ELSE <<>>
TraceInit == i \in 1..Shards /\ l = 1 /\ pool = Empty /\ held = << >> /\ hits = << 0, 0 >> /\ arr = IF i <= Len(Trace) THEN Trace[i].first ELSE <<>>
Step == \E bad \in {TLCEval(Bad)} : IF bad # "" THEN Reject(bad) /\ Finish ELSE pool' = PoolAfter /\ arr' = ArrAfter /\ held' = HeldAfter /\ hits' = Obs.hits[1] /\ l' = l + 1 /\ i' = i
TraceNext == i <= Len(Trace) /\ IF l > Len(T.ops) THEN Finish ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
