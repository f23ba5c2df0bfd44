-------------------------------- MODULE DummyGen --------------------------------
(* Histories of calls of all ranks on the stand-in communicator and, where it is split, on
   the communicators of the groups: group 1 is all ranks, the others have one colour each
   in one of the splits.  Ranks, peers and roots of a call count within its group.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Shared     \* whether ranks may have the same colour, and the same one twice: known findings
VARIABLES sc, p, g, open    \* g: gathers done << group, root, rank >> -> count; open posted receives [grp, no, at, from]
One(X) == {RandomElement(X)}
Init == sc = [ops |-> <<>>] /\ p = 0 /\ g = [x \in (1..13) \X (0..5) \X (0..5) |-> 0] /\ open = <<>>
Members(colours, c) == SelectSeq([k \in 1..Len(colours) |-> IF colours[k] = c THEN k - 1 ELSE 0 - 1], LAMBDA x : x >= 0)
RECURSIVE GroupsOf(_, _, _)
GroupsOf(colours, j, c) == IF c > 11 THEN <<>>
  ELSE (IF Members(colours, c) = <<>> THEN <<>> ELSE << [split |-> j, colour |-> c, ranks |-> Members(colours, c)] >>)
       \o GroupsOf(colours, j, c + 1)
Setup == p = 0 /\ p' = 1 /\ UNCHANGED << g, open >> /\ \E n \in One(1..6), k \in One(2..40), sh \in One({<<1>>, <<3>>, <<2, 2>>}), dt \in One({"float64", "int32"}), early \in One(1..4),
     ns \in One(0..2), many \in One({1, 1, 2, 5}) : \E c1 \in One([1..6 -> 0..many]), c2 \in One([1..6 -> 0..many]) :
   LET splits == [j \in 1..ns |-> [x \in 1..n |-> IF ~Shared THEN x - 1 + (j - 1)*6 ELSE IF j = 1 THEN c1[x] ELSE c2[x]]]
       groups == << [split |-> 0, colour |-> 0, ranks |-> [r \in 1..n |-> r - 1]] >>
                 \o (IF ns > 0 THEN GroupsOf(splits[1], 1, 0) ELSE <<>>) \o (IF ns > 1 THEN GroupsOf(splits[2], 2, 0) ELSE <<>>)
   IN sc' = [n |-> n, no |-> k, ops |-> <<>>, shape |-> sh, dtype |-> dt, early |-> (early = 1), splits |-> splits, groups |-> groups]
Empty == [op |-> "", grp |-> 1, rank |-> 0, peer |-> 0, tag |-> 0, no |-> 0, root |-> 0, block |-> TRUE]
Add(o) == sc' = [sc EXCEPT !.ops = Append(@, o)]
AddOp == /\ p = 1 /\ Len(sc.ops) < sc.no /\ UNCHANGED p
         /\ \E c \in One(1..16), r \in One(0..5), t \in One(0..5), b \in One(BOOLEAN), root \in One({0, 0, 1, 2}), v \in One(1..20) :
           \E w \in One(1..Len(sc.groups)) :
            LET n == Len(sc.groups[w].ranks)   a == r % n   z == t % n   num == Len(sc.ops) + 1   rt == root % n   Blank == [Empty EXCEPT !.grp = w]
                tag == (a * 7 + z) % 3
                tagBack == (z * 7 + a) % 3 IN
            IF c <= 5 THEN Add([Blank EXCEPT !.op = "send", !.rank = a, !.peer = z, !.tag = tag, !.block = b]) /\ UNCHANGED << g, open >>
            ELSE IF c <= 7 THEN Add([Blank EXCEPT !.op = "post", !.rank = a, !.peer = z, !.tag = tagBack, !.no = num]) /\ UNCHANGED g /\ open' = Append(open, [grp |-> w, no |-> num, at |-> a, from |-> z])
            ELSE IF c <= 10 THEN
               \* wait for the first posted receive from some source
               IF open = <<>> THEN Add([Blank EXCEPT !.op = "barrier", !.rank = a]) /\ UNCHANGED << g, open >>
               ELSE LET y == (v % Len(open)) + 1
                        Same(i, j) == open[i].grp = open[j].grp /\ open[i].at = open[j].at /\ open[i].from = open[j].from
                        f == CHOOSE k \in 1..Len(open) : Same(k, y) /\ \A j \in 1..(k-1) : ~Same(j, y) IN
                    Add([Blank EXCEPT !.op = "wait", !.grp = open[f].grp, !.rank = open[f].at, !.no = open[f].no]) /\ UNCHANGED g /\ open' = SubSeq(open, 1, f-1) \o SubSeq(open, f+1, Len(open))
            ELSE IF c = 11 /\ ~\E k \in 1..Len(open) : open[k].grp = w /\ open[k].at = a /\ open[k].from = z
               THEN Add([Blank EXCEPT !.op = "recv", !.rank = a, !.peer = z, !.tag = tagBack]) /\ UNCHANGED << g, open >>
            ELSE IF c <= 13 THEN Add([Blank EXCEPT !.op = IF b THEN "bcast" ELSE "scatter", !.rank = IF sc.early THEN a ELSE IF v > 10 THEN 0 ELSE a]) /\ UNCHANGED << g, open >>
            ELSE LET used == { q \in 0..5 : \E x \in 0..5 : g[<< w, q, x >>] > 0 }  q == IF used = {} THEN rt ELSE CHOOSE x \in used : TRUE
                     count(x) == g[<< w, q, x >>] IN
                 IF (a # q /\ count(a) = count(q)) \/ (a = q /\ ((sc.early /\ count(q) = 0) \/ \A x \in (0..n-1) \ {q} : count(x) > count(q)))
                 THEN Add([Blank EXCEPT !.op = "gather", !.rank = a, !.root = q]) /\ g' = [g EXCEPT ![<< w, q, a >>] = @ + 1] /\ UNCHANGED open
                 ELSE Add([Blank EXCEPT !.op = "barrier", !.rank = a]) /\ UNCHANGED << g, open >>
Emit == p = 1 /\ Len(sc.ops) = sc.no /\ p' = 2 /\ UNCHANGED << sc, g, open >> /\ PrintT("@SCEN " \o ToJson(sc))
Next == Setup \/ AddOp \/ Emit
Spec == Init /\ [][Next]_<<sc, p, g, open>>
=================================================================================
