------------------------------- MODULE SessionTrace -------------------------------
(* Validates histories that use everything a model uses (C26): every operation has the
   effect that the specifications of halo updates, transfers, nudging and corner fills
   give it, on the arrays it concerns, and no operation changes anything else.

   st: what is held, by << slot, field, component, via, rank >>.  Slot "A" is the model's
   own array (all of it, in the order of the dimensions that it was made with, however
   it is transposed meanwhile), "G" what was gathered (on roots), "N" what a scatter
   returned; of these the compute domain, the dimensions in that order, too.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == INSTANCE Halo
P == INSTANCE Transfer
C == INSTANCE Corners
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, st, perm
vars == << i, l, st, perm >>
T == Trace[i]
Op == T.ops[l]
Obs == T.obs[l]
NR == 6*T.L*T.L
Ranks == 0..(NR-1)
Layout == << T.L, T.L >>
Fields == 1..Len(T.fields)
Comps(f) == 1..Len(T.fields[f].qs)
Q(f, c) == T.fields[f].qs[c]
Key(x) == << x.s, x.f, x.c, x.v, x.r >>
S(via) == [kind |-> IF via = "cube" THEN "cube" ELSE "split", layout |-> Layout]
D(f, c) == [k \in 1..Len(Q(f, c)) |-> LET d == Q(f, c)[k] IN
              [axis |-> d.axis, iface |-> d.iface, cells |-> IF d.axis = "o" THEN d.extent ELSE T.n * T.L]]
Arr(q, d) == [q |-> q, d |-> d]
GLayout(f, c, via) == P!GlobalLayout(S(via), D(f, c))
NLayout(f, c) == P!LocalLayout(S("cube"), D(f, c))
(* the compute domain of an array *)
Domain(f, c, d) ==
  LET q == Q(f, c)  n == NLayout(f, c)  sq == TLCEval(P!Strides(q))  sn == TLCEval(P!Strides(n))
  IN [e \in 1..P!Size(n) |-> d[P!Element(q, sq, P!Coord(n, sn, e-1)) + 1]]

(* what was observed: deltas of this operation; Now: all that is held after it *)
Deltas == { Obs.delta[k] : k \in 1..Len(Obs.delta) }
Changed == { Key(x) : x \in Deltas }
Held(keep) == [key \in keep \cup Changed |->
                 IF key \in Changed THEN (CHOOSE x \in Deltas : Key(x) = key).d ELSE st[key]]
KindOf(key) == (CHOOSE x \in Deltas : Key(x) = key).m

(* ---- the effects: functions from keys to what is held afterwards ---- *)
AKeys(f) == { << "A", f, c, "", r >> : c \in Comps(f), r \in Ranks }
Updated(f, kind, npts) ==
  LET qs == T.fields[f].qs
      str == TLCEval([c \in Comps(f) |-> H!Strides(qs[c])])
      nb == TLCEval(H!Neighbours(T.L))
  IN [key \in AKeys(f) |->
        [k \in 1..Len(st[key]) |->
           LET a == H!After(kind, T.L, T.n, npts, nb, qs, str, key[5], key[3], k-1)
           IN a[4] * st[<< "A", f, a[2], "", a[1] >>][a[3] + 1]]]
(* the update that a wait finishes: the last one started for the field *)
StartOf == LET js == { j \in 1..(l-1) : T.ops[j].op = "start" /\ T.ops[j].field = Op.field }
           IN T.ops[CHOOSE j \in js : \A k \in js : k <= j]
Scattered(f, c, via, into) ==
  [key \in { << IF into THEN "A" ELSE "N", f, c, "", r >> : r \in Ranks } |->
     LET r == key[5]
         g == Arr(GLayout(f, c, via), st[<< "G", f, c, via, P!Root(S(via), r) >>])
     IN P!Scattered(S(via), D(f, c), g, IF into THEN Arr(Q(f, c), st[key]) ELSE P!Blank(NLayout(f, c)), r).d]
ScatteredState ==
  LET parts == { << f, c >> \in { Op.fields[k] : k \in 1..Len(Op.fields) } \X (1..2) : c \in Comps(f) }
      all == [x \in parts |-> TLCEval(Scattered(x[1], x[2], "cube", Op.groups))]
  IN [key \in UNION { DOMAIN all[x] : x \in parts } |-> all[<< key[2], key[3] >>][key]]
Nudged ==
  [key \in AKeys(Op.field) |->
     LET q == Q(Op.field, key[3])  sq == TLCEval(P!Strides(q))
         ref == st[[key EXCEPT ![2] = Op.to]]
     IN [k \in 1..Len(st[key]) |-> IF P!Inside(q, P!Coord(q, sq, k-1)) THEN st[key][k] + Op.m * (ref[k] - st[key][k])
                                   ELSE st[key][k]]]
FilledCorners ==
  [key \in { << "A", Op.field, Op.comp, "", r >> : r \in Ranks } |->
     C!Filled(Q(Op.field, Op.comp), Layout, key[5], Op.dir, Op.npts, st[key])]
Determined ==
  CASE Op.op = "update" -> Updated(Op.field, Op.kind, Op.npts)
    [] Op.op = "wait" -> Updated(Op.field, StartOf.kind, StartOf.npts)
    [] Op.op = "scatter" -> Scattered(Op.field, Op.comp, Op.via, Op.dst = "given")
    [] Op.op = "scatter_state" -> ScatteredState
    [] Op.op = "nudge" -> Nudged
    [] Op.op = "corners" -> FilledCorners
    [] OTHER -> <<>>
(* gathers may take any owner's value at points that ranks share *)
Gathers ==
  CASE Op.op = "gather" -> { << "G", Op.field, Op.comp, Op.via, r >> : r \in { r \in Ranks : P!IsRoot(S(Op.via), r) } }
    [] Op.op = "gather_state" -> { << "G", f, c, "cube", 0 >> : << f, c >> \in
            { << f, c >> \in { Op.fields[k] : k \in 1..Len(Op.fields) } \X (1..2) : c \in Comps(f) } }
    [] OTHER -> {}
Gathered(f, c, via, root, d) ==
  LET parts == [r \in Ranks |-> Arr(Q(f, c), st[<< "A", f, c, "", r >>])]
  IN P!GatherOK(S(via), D(f, c), root, parts, P!Blank(GLayout(f, c, via)), Arr(GLayout(f, c, via), d))
(* what the caller writes may be anything *)
Written == IF Op.op # "write" THEN {}
           ELSE { key \in DOMAIN st : key[1] = (IF Op.dst \in {"G", "N"} THEN Op.dst ELSE "A") /\ key[2] = Op.field /\ key[3] = Op.comp
                                      /\ (Op.dst = "G" => key[4] = Op.via) /\ Op.rank \in {-1, key[5]} }
Dropped == IF Op.op # "transpose" THEN {} ELSE { key \in DOMAIN st : key[1] = "G" /\ key[2] = Op.field }
NewKeys == IF Op.op \in {"gather", "gather_state"} THEN Gathers
           ELSE IF (Op.op = "scatter" /\ Op.dst = "fresh") \/ (Op.op = "scatter_state" /\ ~Op.groups) THEN DOMAIN Determined ELSE {}
(* dimensions, units and type of a new quantity *)
Kind(key) == << (IF key[1] = "G" /\ key[4] = "cube" THEN << "tile" >> ELSE <<>>) \o
                  [k \in 1..Len(perm[key[2]]) |-> T.names[key[2]][key[3]][perm[key[2]][k]]],
                T.units[key[2]], T.fields[key[2]].dtype >>

ResBad ==
  IF Op.op \in {"file", "convert"} THEN
     IF \E k \in 1..Len(Obs.res) : LET x == Obs.res[k] IN
           x.d # Domain(x.f, x.c, st[<< "A", x.f, x.c, "", x.r >>]) \/ x.m # Kind(<< "A", x.f, x.c, "", x.r >>)
     THEN "what was written or converted is not what was held"
     ELSE IF Op.op = "file" /\ { << Obs.res[k].f, Obs.res[k].c >> : k \in 1..Len(Obs.res) } # { << f, c >> \in Fields \X (1..2) : c \in Comps(f) }
     THEN "a file lacks variables" ELSE ""
  ELSE IF Op.op = "store" THEN
     IF \E k \in 1..Len(Obs.res) : LET x == Obs.res[k] IN
           Len(x.d) # P!Size(GLayout(x.f, x.c, "cube")) \/ ~Gathered(x.f, x.c, "cube", 0, x.d)
     THEN "the store does not hold what the ranks stored" ELSE ""
  ELSE ""

Bad(want, held) ==
  LET touched == DOMAIN want \cup Gathers \cup Written IN
  IF Obs.errors # <<>> THEN "an operation did not do what it has to, or a refusal was not made"
  ELSE IF \E key \in Changed : key \notin touched THEN "an operation changed what it does not concern"
  ELSE IF \E key \in touched : key \notin DOMAIN held THEN "an operation returned nothing"
  ELSE IF \E key \in DOMAIN want : held[key] # want[key] THEN "an operation had another effect than specified"
  ELSE IF \E key \in Gathers : Len(held[key]) # P!Size(GLayout(key[2], key[3], key[4])) \/ ~Gathered(key[2], key[3], key[4], key[5], held[key])
       THEN "gathered values are wrong"
  ELSE IF \E key \in NewKeys : key \notin Changed \/ KindOf(key) # Kind(key) THEN "a new quantity has wrong dimensions, units or type"
  ELSE ResBad

(* in the end the quantities are still described as they were *)
FinalBad ==
  IF \E k \in 1..Len(T.final) :
       LET x == T.final[k]  q == Q(x.f, x.c)  p == perm[x.f] IN
         \/ x.m # Kind(<< "A", x.f, x.c, "", x.r >>) \/ ~x.kept
         \/ x.origin # [d \in 1..Len(p) |-> q[p[d]].origin] \/ x.extent # [d \in 1..Len(p) |-> q[p[d]].extent]
  THEN "dimensions, units, type or extent of a field changed"
  ELSE IF T.zarr.problem # "" THEN T.zarr.problem
  ELSE IF T.leftover # 0 THEN "messages left undelivered" ELSE ""
Outcome == IF T.deadlock THEN "ranks wait for each other forever"
           ELSE IF T.error # "" THEN "a valid operation raised an error"
           ELSE IF T.misuse # "" THEN "collective calls do not match" ELSE ""

Reject(clause, why) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << clause >>, why |-> why]))
Finish == /\ PrintT("@DONE " \o ToJson(T.id))
          /\ i' = i + Shards /\ l' = 0 /\ st' = <<>> /\ perm' = <<>>
TraceInit == i \in 1..Shards /\ l = 0 /\ st = <<>> /\ perm = <<>>
Begin == IF Outcome # "" THEN Reject(Outcome, << T.error, T.misuse >>) /\ Finish
         ELSE /\ l' = 1 /\ i' = i
              /\ st' = [key \in { Key(T.start[k]) : k \in 1..Len(T.start) } |->
                          T.start[CHOOSE k \in 1..Len(T.start) : Key(T.start[k]) = key].d]
              /\ perm' = [f \in Fields |-> [d \in 1..Len(Q(f, 1)) |-> d]]
Step ==
  \E want \in {TLCEval(Determined)} : \E held \in {TLCEval(Held(DOMAIN st \ Dropped))} : \E bad \in {TLCEval(Bad(want, held))} :
    IF bad # "" THEN Reject(bad, [step |-> l, op |-> Op, errors |-> Obs.errors,
                                  wrong |-> { key \in DOMAIN want \cap DOMAIN held : held[key] # want[key] }, changed |-> Changed]) /\ Finish
    ELSE /\ st' = held /\ l' = l + 1 /\ i' = i
         /\ perm' = IF Op.op = "transpose" THEN [perm EXCEPT ![Op.field] = [d \in 1..Len(@) |-> @[Op.perm[d]]]] ELSE perm
End == /\ \E b \in {TLCEval(FinalBad)} : IF b # "" THEN Reject(b, "") ELSE TRUE
       /\ Finish
TraceNext == i <= Len(Trace) /\ (IF l = 0 THEN Begin ELSE IF l <= Len(T.ops) THEN Step ELSE End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
