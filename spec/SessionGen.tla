------------------------------- MODULE SessionGen -------------------------------
(* Generates histories that use everything a model uses, on the fields of one model:
   halo updates of all kinds, finished later or at once, on two communicators; scatters
   and gathers over the cube and over tiles; storing to Zarr and to files; nudging,
   transposing, converting, filling corners, switching timers, refused calls.

   busy: fields of updates that are under way; have: << field, component, via >> that
   were gathered; perm: how the dimensions of each field are permuted.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxL, MaxOps
VARIABLES sc, p, busy, have, perm, nudges
vars == << sc, p, busy, have, perm, nudges >>
One(S) == {RandomElement(S)}
Orders == << <<"x","y">>, <<"y","x">>, <<"o","y","x">>, <<"x","y","o">>, <<"y","o","x">>, <<"x","o","y">>, <<"x","y">>, <<"x","y","o">> >>
Kinds == << [kind |-> "scalar", stag |-> << <<0,0>> >>], [kind |-> "scalar", stag |-> << <<1,1>> >>],
            [kind |-> "scalar", stag |-> << <<0,0>> >>],
            [kind |-> "vector", stag |-> << <<0,0>>, <<0,0>> >>],
            [kind |-> "vector", stag |-> << <<0,1>>, <<1,0>> >>],
            [kind |-> "vector", stag |-> << <<1,0>>, <<0,1>> >>],
            [kind |-> "cgrid",  stag |-> << <<0,1>>, <<1,0>> >>] >>
Dim(ax, f, o, e, s) == [axis |-> ax, iface |-> f, origin |-> o, extent |-> e, shape |-> s]
Init == sc = [L |-> 0] /\ p = 0 /\ busy = <<>> /\ have = {} /\ perm = <<>> /\ nudges = 0
Setup == /\ p = 0 /\ p' = 1 /\ UNCHANGED << busy, have, perm, nudges >>
         /\ \E L \in One(1..MaxL), l2 \in One(1..4), n \in One(1..3), nf \in One(2..4), no \in One(8..MaxOps), nz \in One(1..2), sd \in One(0..99999), dl \in One({"eager", "rendezvous", "random"}),
               po \in One({"random", "stay", "prio", "rr"}), sy \in One(BOOLEAN), focus \in One(0..6) :
              LET LL == IF l2 = 1 THEN L ELSE 1 IN
              sc' = [L |-> LL, nz |-> nz, n |-> IF LL > 1 THEN ((n % 2) + 1) ELSE n, nf |-> IF focus = 4 THEN 1 ELSE nf, no |-> no, seed |-> sd, delivery |-> dl, policy |-> po, sync |-> sy,
                     focus |-> focus, fields |-> <<>>, ops |-> <<>>]
H == IF sc.n > 2 THEN 3 ELSE sc.n
AddField ==
  /\ p = 1 /\ Len(sc.fields) < sc.nf /\ UNCHANGED << p, busy, have, nudges >>
  /\ \E k \in One(1..Len(Kinds)), o \in One(1..Len(Orders)), lo \in One(0..1), hi \in One(0..1), zo \in One(0..1), ze \in {sc.nz},
        mo \in One({"C", "C", "F", "strided", "reversed", "inner"}), twin \in One(0..2), dn \in One(1..8) :
       LET Q(c) == [d \in 1..Len(Orders[o]) |->
                LET ax == Orders[o][d]
                    f == IF ax = "x" THEN Kinds[k].stag[c][1] ELSE IF ax = "y" THEN Kinds[k].stag[c][2] ELSE 0
                    e == IF ax = "o" THEN ze ELSE sc.n + f
                    og == IF ax = "o" THEN zo ELSE H + lo
                IN Dim(ax, f, og, e, og + e + (IF ax = "o" THEN 0 ELSE H + hi))]
           new == [kind |-> Kinds[k].kind, mem |-> mo, dtype |-> << "float32", "int32", "int64", "float64", "float64", "float64", "float64", "float64" >>[dn], twin |-> 0, qs |-> [c \in 1..Len(Kinds[k].stag) |-> Q(c)]]
       IN /\ sc' = [sc EXCEPT !.fields = Append(@, IF twin <= 1 /\ @ # <<>> THEN [@[Len(@)] EXCEPT !.twin = Len(sc.fields), !.mem = mo] ELSE new)]
          /\ perm' = Append(perm, [d \in 1..(IF twin <= 1 /\ sc.fields # <<>> THEN Len(sc.fields[Len(sc.fields)].qs[1]) ELSE Len(Orders[o])) |-> d])
Blank == [op |-> "", field |-> 0, comp |-> 0, to |-> 0, npts |-> 0, comm |-> 1, via |-> "cube", rank |-> -1, dst |-> "", dir |-> "x", kind |-> "", m |-> 1, perm |-> <<>>, groups |-> FALSE, fields |-> <<>>]
Busy == { busy[k] : k \in 1..Len(busy) }
Put(o) == sc' = [sc EXCEPT !.ops = Append(@, o)]
Perms(n) == { q \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => q[a] # q[b] }
RECURSIVE Seq_(_)
Seq_(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o Seq_(S \ {m})
(* kinds of steps, some histories being about some of them *)
Step_(c) == IF sc.focus = 1 /\ c % 2 = 0 THEN << "gather", "scatter", "update", "write" >>[((c \div 2) % 4) + 1]
            ELSE IF sc.focus = 2 /\ c % 2 = 0 THEN << "start", "wait", "update", "gather", "store" >>[((c \div 2) % 5) + 1]
            ELSE IF sc.focus = 3 /\ c % 2 = 0 THEN << "transpose", "update", "nudge", "file" >>[((c \div 2) % 4) + 1]
            ELSE IF sc.focus = 4 /\ c % 4 # 0 THEN << "gather", "scatter", "write", "scatter", "write", "gather", "scatter_state", "write" >>[((c \div 4) % 8) + 1]
            ELSE << "write", "write", "update", "update", "update", "start", "start", "wait", "gather", "scatter", "scatter", "scatter", "transpose", "nudge", "nudge", "nudge", "nudge",
                    "store", "file", "timer", "corners", "gather_state", "scatter_state", "scatter_state", "convert", "refuse" >>[(c % 26) + 1]
AddOp ==
  /\ p = 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.ops) < sc.no /\ p' = p
  /\ \E c \in One(0..519), f \in One(1..sc.nf), k \in One(1..20), np \in One(1..H), cm \in One({1, 1, 2}), via \in One({"cube", "tile"}), sy \in One(BOOLEAN), m \in One(1..2),
        rk \in One(-1..(6*sc.L*sc.L - 1)), fresh \in One(1..3), wr \in One(1..6), dir \in One({"x", "y"}), sub \in One(SUBSET (1..sc.nf)), pm \in One(1..6) :
       LET F == sc.fields[f]
           s == Step_(c)
           comp == (k % Len(F.qs)) + 1
           free == f \notin Busy
           updkind == IF F.kind = "cgrid" THEN (IF sy THEN "sync" ELSE "vector") ELSE F.kind
           o == [Blank EXCEPT !.op = s, !.field = f, !.comp = comp, !.npts = np, !.comm = cm, !.via = via, !.rank = rk, !.dir = dir, !.kind = updkind]
           subset == { g \in sub : g \notin Busy }
           got == { g \in subset : \A q \in 1..Len(sc.fields[g].qs) : << g, q, "cube" >> \in have }
       IN CASE s = "write" /\ free -> Put([o EXCEPT !.rank = IF sy \/ wr <= 3 THEN -1 ELSE rk, !.via = IF << f, comp, via >> \in have THEN @ ELSE IF @ = "cube" THEN "tile" ELSE "cube",
                                              !.dst = << "G", "G", "N", "view", "all", "view" >>[wr]]) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s = "update" /\ free -> Put(o) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s = "start" /\ free -> Put(o) /\ busy' = Append(busy, f) /\ UNCHANGED << have, perm, nudges >>
            [] s = "wait" /\ busy # <<>> ->
                 LET j == (k % Len(busy)) + 1 IN
                 /\ Put([Blank EXCEPT !.op = "wait", !.field = busy[j]]) /\ busy' = SubSeq(busy, 1, j-1) \o SubSeq(busy, j+1, Len(busy)) /\ UNCHANGED << have, perm, nudges >>
            [] s \in {"gather", "scatter"} /\ free /\ (s = "gather" \/ << f, comp, via >> \notin have) -> Put([o EXCEPT !.op = "gather", !.dst = IF << f, comp, via >> \in have /\ fresh > 1 THEN "given" ELSE "fresh"]) /\ have' = have \cup { << f, comp, via >> } /\ UNCHANGED << busy, perm, nudges >>
            [] s = "scatter" /\ free /\ << f, comp, via >> \in have -> Put([o EXCEPT !.dst = IF fresh > 1 /\ (sc.focus # 4 \/ wr > 3) THEN "given" ELSE "fresh"]) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s = "transpose" /\ free ->
                 LET n == Len(F.qs[1]) IN
                 \E q \in {TLCEval(RandomElement(Perms(n)))} :
                   /\ Put([o EXCEPT !.perm = q, !.groups = sy]) /\ perm' = [perm EXCEPT ![f] = [d \in 1..n |-> @[q[d]]]]
                   /\ have' = { h \in have : h[1] # f } /\ UNCHANGED << busy, nudges >>
            [] s = "nudge" /\ free /\ F.twin > 0 /\ F.dtype = "float64" /\ perm[f] = perm[F.twin] /\ F.twin \notin Busy /\ nudges < 5 ->
                 Put([o EXCEPT !.m = m, !.to = F.twin]) /\ nudges' = nudges + 1 /\ UNCHANGED << busy, have, perm >>
            [] s = "store" /\ busy = <<>> -> Put(o) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s = "file" /\ busy = <<>> -> Put([o EXCEPT !.rank = IF rk < 0 THEN 0 ELSE rk]) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s \in {"timer", "refuse"} -> Put([o EXCEPT !.m = k]) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s = "convert" /\ free -> Put(o) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s = "corners" /\ free /\ perm[f] = [d \in 1..Len(perm[f]) |-> d] /\ F.qs[comp][1].axis = "x" /\ F.qs[comp][2].axis = "y" -> Put(o) /\ UNCHANGED << busy, have, perm, nudges >>
            [] s \in {"gather_state", "scatter_state"} /\ subset # {} /\ (s = "gather_state" \/ got = {}) ->
                 Put([o EXCEPT !.op = "gather_state", !.fields = Seq_(subset)]) /\ have' = have \cup { << g, q, "cube" >> : g \in subset, q \in 1..2 } /\ UNCHANGED << busy, perm, nudges >>
            [] s = "scatter_state" /\ got # {} -> Put([o EXCEPT !.fields = Seq_(got), !.groups = sy]) /\ UNCHANGED << busy, have, perm, nudges >>
            [] OTHER -> UNCHANGED << sc, busy, have, perm, nudges >>
Flush == /\ p = 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.ops) >= sc.no /\ busy # <<>> /\ UNCHANGED << p, have, perm, nudges >>
         /\ \E k \in One(1..20) : LET j == (k % Len(busy)) + 1 IN
              Put([Blank EXCEPT !.op = "wait", !.field = busy[j]]) /\ busy' = SubSeq(busy, 1, j-1) \o SubSeq(busy, j+1, Len(busy))
Emit == /\ p = 1 /\ Len(sc.fields) = sc.nf /\ Len(sc.ops) >= sc.no /\ busy = <<>> /\ sc.L > 0 /\ p' = 3 /\ UNCHANGED << sc, busy, have, perm, nudges >> /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddField \/ AddOp \/ Flush \/ Emit
Spec == Init /\ [][Next]_vars
=================================================================================
