------------------------------ MODULE HaloAsyncTrace ------------------------------
(* Validates recorded histories of asynchronous updates (C05), event by event.

   State: the content of every array of every rank, the content each update's arrays
   had on each rank when it was started, and the updates pending on each rank.  The
   actions are Start, Wait (which must bring the arrays to what the geometry in Halo
   gives from the starts of the update alone) and Write.  Arrays of updates that are
   still pending may, or may not yet, have received their halos.                     *)
EXTENDS Halo, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, arr, snap, pend, tm   \* tm[r]: the timer of a rank: << enabled, hit counts >>
vars == <<i, l, arr, snap, pend, tm>>
PT == INSTANCE Partition
NB == [L \in 1..3 |-> Neighbours(L)]

T == Trace[i]
NR == 6*T.L*T.L
Flds == 1..Len(T.fields)
RECURSIVE Base(_, _, _)   \* numbers used by the quantities before quantity c of field f
Base(X, f, c) == IF f = 1 /\ c = 1 THEN 1
                 ELSE IF c > 1 THEN Base(X, f, c-1) + 6*X.L*X.L*Size(X.fields[f].qs[c-1])
                 ELSE Base(X, f-1, Len(X.fields[f-1].qs)) + 6*X.L*X.L*Size(X.fields[f-1].qs[Len(X.fields[f-1].qs)])
Initial(X) == TLCEval([r \in 0..(6*X.L*X.L - 1) |-> [f \in 1..Len(X.fields) |->
                 [c \in 1..Len(X.fields[f].qs) |->
                    LET s == Size(X.fields[f].qs[c])  b == Base(X, f, c)
                    IN [k \in 1..s |-> b + r*s + k - 1]]]])

(* the arrays of a field after an update, on rank r *)
Updated(up, snaps, r) ==
  LET F == T.fields[up.field]
      st == TLCEval([c \in 1..Len(F.qs) |-> Strides(F.qs[c])])
  IN [c \in 1..Len(F.qs) |-> [k \in 1..Size(F.qs[c]) |->
        LET a == After(up.kind, T.L, T.n, up.npts, NB[T.L], F.qs, st, r, c, k-1)
        IN a[4] * snaps[a[1]][a[2]][a[3]+1]]]

Up(u) == T.phases[u[1]].starts[u[2]]

Reset(X) == /\ arr' = Initial(X)
            /\ snap' = <<>>
            /\ pend' = [r \in 0..(6*X.L*X.L - 1) |-> {}]
            /\ tm' = [r \in 0..(6*X.L*X.L - 1) |-> << TRUE, <<0, 0, 0, 0, 0>> >>]

(* content of a pending field: every element is as before or as after the update *)
PendingOK(r, u, got) ==
  LET f == Up(u).field
      fin == Updated(Up(u), [q \in 0..(NR-1) |-> IF q \in DOMAIN snap[u] THEN snap[u][q] ELSE arr[r][f]], r)
  IN \A c \in 1..Len(got) : \A k \in 1..Len(got[c]) :
        got[c][k] = arr[r][f][c][k] \/ fin[c][k] # arr[r][f][c][k]

WaitBad(e) ==
  LET r == e.rank   u == << e.phase, e.upd >>   up == Up(u)  f == up.field
      want == TLCEval(Updated(up, snap[u], r))
      others == IF "brief" \in DOMAIN T THEN {} ELSE { g \in Flds : g # f }
      pendingOn(g) == { v \in pend[r] : Up(v).field = g }
  IN IF u \notin pend[r] THEN "uninterpretable wait"
     ELSE IF e.arrays[f] # want THEN
       IF e.arrays[f] = arr[r][f] THEN "wait returned without the update's data"
       ELSE "wait did not produce the update's result"
     ELSE IF \E g \in others : pendingOn(g) = {} /\ e.arrays[g] # arr[r][g]
          THEN "wait changed an array it does not concern"
     ELSE IF \E g \in others : \E v \in pendingOn(g) : ~PendingOK(r, v, e.arrays[g])
          THEN "wait changed a pending array outside its halo"
     ELSE ""

FinalBad(e) ==
  IF e.arrays # arr[e.rank] THEN "final arrays are not those after all updates" ELSE ""

Outcome(X) == IF X.deadlock THEN "ranks wait for each other forever"
              ELSE IF X.error # "" THEN "an update raised an error"
              ELSE IF X.misuse # "" THEN "messages do not match"
              ELSE IF X.leftover # 0 THEN "messages left undelivered" ELSE ""

Reject(clause, why) == PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << clause >>, why |-> why]))
Finish == /\ PrintT("@DONE " \o ToJson(T.id))
          /\ i' = i + Shards /\ l' = 0
          /\ arr' = <<>> /\ snap' = <<>> /\ pend' = <<>> /\ tm' = <<>>

TraceInit == i \in 1..Shards /\ l = 0 /\ arr = <<>> /\ snap = <<>> /\ pend = <<>> /\ tm = <<>>

Begin == l = 0 /\ Reset(T) /\ l' = 1 /\ i' = i
E == T.events[l]
Field(u) == Up(u).field

(* The timer of a rank's communicator: E.hits counts "pack", "unpack", "Isend", "Recv"
   and the names that are none of these.  A disabled timer records nothing; an enabled one
   records what an update does.                                                        *)
Timed == "hits" \in DOMAIN E
HitsBad(must) ==
  IF ~Timed THEN ""
  ELSE LET on == tm[E.rank][1]  old == tm[E.rank][2] IN
    IF ~on /\ E.hits # old THEN "a disabled timer recorded something"
    ELSE IF ~E.kept THEN "another communicator's timer recorded something"
    ELSE IF \E k \in 1..4 : E.hits[k] < old[k] THEN "recorded hits were lost"
    ELSE IF on /\ (\E k \in must : E.hits[k] = old[k]) THEN "an update was not timed"
    ELSE IF ~E.timed THEN "times and hits have different names"
    ELSE ""
Tick == tm' = IF Timed THEN [tm EXCEPT ![E.rank][2] = E.hits] ELSE tm

Start == /\ E.ev = "start"
         /\ LET u == << E.phase, E.upd >> IN
            /\ snap' = TLCEval([v \in (DOMAIN snap) \cup {u} |->
                  IF v # u THEN snap[v]
                  ELSE LET old == IF u \in DOMAIN snap THEN snap[u] ELSE <<>> IN
                       [q \in (DOMAIN old) \cup {E.rank} |-> IF q = E.rank THEN arr[E.rank][Field(u)] ELSE old[q]]])
            /\ pend' = [pend EXCEPT ![E.rank] = @ \cup {u}]
         /\ UNCHANGED <<arr, i, tm>> /\ l' = l + 1
Go(b, why) == \E bad \in {TLCEval(b)} : IF bad # "" THEN Reject(bad, why) /\ Finish ELSE UNCHANGED <<arr, snap, pend, i>> /\ Tick /\ l' = l + 1
Started == /\ E.ev = "started"
           /\ Go(HitsBad({1, 3}), [event |-> l, before |-> tm[E.rank], hits |-> IF Timed THEN E.hits ELSE <<>>])
(* a wait returns only after all ranks whose data it needs have started *)
Ready(u, r) == \A d \in { d \in (-1..1) \X (-1..1) : d # <<0,0>> } :
                 LET x == NB[T.L][r][d[1]][d[2]] IN x.s = "C" \/ x.to \in DOMAIN snap[u]
                   \/ (Up(u).kind = "sync" /\ d \notin { <<1,0>>, <<0,1>> })
Wait == /\ E.ev = "wait"
        /\ LET u == << E.phase, E.upd >>
               bad == IF ~Ready(u, E.rank) THEN "wait returned before its neighbours started"
                      ELSE LET b == WaitBad(E) IN IF b # "" THEN b ELSE HitsBad({4})
           IN IF bad # "" THEN Reject(bad, [event |-> l, rank |-> E.rank, update |-> Up(u)]) /\ Finish
              ELSE /\ arr' = [arr EXCEPT ![E.rank][Field(u)] = E.arrays[Field(u)]]
                   /\ pend' = [pend EXCEPT ![E.rank] = @ \ {u}]
                   /\ Tick
                   /\ UNCHANGED <<snap, i>> /\ l' = l + 1
Write == /\ E.ev = "write"
         /\ arr' = [arr EXCEPT ![E.rank][E.field] = E.arrays]
         /\ UNCHANGED <<snap, pend, i, tm>> /\ l' = l + 1
Final == /\ E.ev = "final"
         /\ \E bad \in {TLCEval(FinalBad(E))} :
            IF bad # "" THEN Reject(bad, [event |-> l, rank |-> E.rank]) /\ Finish
            ELSE UNCHANGED <<arr, snap, pend, i, tm>> /\ l' = l + 1

(* a call that is an error raises one and disturbs nothing *)
Refused == /\ E.ev = "refused"
           /\ Go(IF E.error = "" THEN "a call that is an error was accepted" ELSE HitsBad({}), [event |-> l])
(* an update by another communicator of the same ranks concerns its own timer only *)
Beside == /\ E.ev = "beside"
          /\ Go(IF E.hits # tm[E.rank][2] THEN "an update was recorded by another communicator's timer"
                ELSE IF ~E.moved THEN "a second communicator's timer did not follow its own updates"
                ELSE HitsBad({}), [event |-> l])
Clock == /\ E.ev = "clock"
         /\ \E bad \in {TLCEval(IF E.error # "" THEN "the timer could not be switched between two calls" ELSE HitsBad({}))} :
            IF bad # "" THEN Reject(bad, [event |-> l, rank |-> E.rank, error |-> E.error, hits |-> E.hits, before |-> tm[E.rank]]) /\ Finish
            ELSE /\ tm' = [tm EXCEPT ![E.rank] = << CASE E.what = "disable" -> FALSE [] E.what = "enable" -> TRUE [] OTHER -> @[1], E.hits >>]
                 /\ UNCHANGED <<arr, snap, pend, i>> /\ l' = l + 1

(* Gathers and scatters of a field's only quantity between the updates.  The content of
   the ranks' compute domains at the call is kept under << 0, number >>.              *)
Quant(f) == T.fields[f].qs[1]
Dims(f) == [d \in 1..Len(Quant(f)) |-> [axis |-> Quant(f)[d].axis, iface |-> Quant(f)[d].iface,
              cells |-> IF Quant(f)[d].axis = "o" THEN Quant(f)[d].extent - Quant(f)[d].iface ELSE T.n*T.L]]
Layout == << T.L, T.L >>
WholeExtent(f) == << 6 >> \o PT!TileExtent(Dims(f))
RECURSIVE RowMajor(_, _, _)
RowMajor(c, s, k) == IF k > Len(c) THEN 0 ELSE c[k]*ProdFrom(s, k+1) + RowMajor(c, s, k+1)
Keep(key, r, v) == snap' = TLCEval([w \in (DOMAIN snap) \cup {key} |->
                     IF w # key THEN snap[w]
                     ELSE LET old == IF key \in DOMAIN snap THEN snap[key] ELSE <<>> IN
                          [q \in (DOMAIN old) \cup {r} |-> IF q = r THEN v ELSE old[q]]])
Part == /\ E.ev = "part" /\ Keep(<< 0, E.op >>, E.rank, arr[E.rank][E.field][1])
        /\ UNCHANGED <<arr, pend, i, tm>> /\ l' = l + 1
GatherBad ==
  LET f == E.field   Q == Quant(f)  D == Dims(f)   ext == WholeExtent(f)   st == Strides(Q)
      parts == snap[<< 0, E.op >>]
      low == TLCEval([r \in 0..(NR-1) |-> PT!RankLow(D, Layout, r)])  high == TLCEval([r \in 0..(NR-1) |-> PT!RankHigh(D, Layout, r, TRUE)])
      P(e) == [k \in 1..Len(ext) |-> (e \div ProdFrom(ext, k+1)) % ext[k]]
      owners(c) == { r \in 0..(NR-1) : PT!TileOfRank(r, Layout) = c[1] /\ \A k \in 1..Len(D) : low[r][k] <= c[k+1] /\ c[k+1] < high[r][k] }
  IN IF DOMAIN parts # 0..(NR-1) THEN "a gather returned before all ranks called it"
     ELSE IF E.shape # ext \/ Len(E.whole) # ProdFrom(ext, 1) THEN "a gathered array has the wrong size"
     ELSE IF \E e \in 0..(Len(E.whole)-1) : LET c == P(e) IN
             ~\E r \in owners(c) : E.whole[e+1] = parts[r][Flat(Q, st, [k \in 1..Len(D) |-> c[k+1] - low[r][k]]) + 1]
          THEN "a gather among updates has wrong values" ELSE ""
Gathered == E.ev = "gathered" /\ Go(GatherBad, [event |-> l, field |-> E.field])
Whole == /\ E.ev = "whole" /\ Keep(<< 0, E.op >>, 0, E.whole)
         /\ UNCHANGED <<arr, pend, i, tm>> /\ l' = l + 1
ScatterWant ==
  LET f == E.field   Q == Quant(f)  D == Dims(f)   ext == WholeExtent(f)   st == Strides(Q)   r == E.rank
      low == PT!RankLow(D, Layout, r)  whole == snap[<< 0, E.op >>][0]
  IN [k \in 1..Size(Q) |->
        LET c == Local(Q, st, k-1) IN
        IF \A d \in 1..Len(Q) : c[d] >= 0 /\ c[d] < Q[d].extent
        THEN whole[RowMajor(<< PT!TileOfRank(r, Layout) >> \o [d \in 1..Len(Q) |-> c[d] + low[d]], ext, 1) + 1]
        ELSE arr[r][f][1][k]]
Scattered ==
  /\ E.ev = "scattered"
  /\ \E bad \in {TLCEval(IF << 0, E.op >> \notin DOMAIN snap THEN "a scatter returned before the root called it"
                ELSE IF E.arrays # << TLCEval(ScatterWant) >> THEN "a scatter among updates has wrong values" ELSE "")} :
     IF bad # "" THEN Reject(bad, [event |-> l, rank |-> E.rank, field |-> E.field]) /\ Finish
     ELSE arr' = [arr EXCEPT ![E.rank][E.field] = E.arrays] /\ UNCHANGED <<snap, pend, i, tm>> /\ l' = l + 1
End == LET bad == Outcome(T) IN
       /\ IF bad # "" THEN Reject(bad, << T.error, T.misuse >>) ELSE TRUE
       /\ Finish
TraceNext == /\ i <= Len(Trace)
             /\ IF l = 0 THEN Begin
                ELSE IF l > Len(T.events) THEN End
                ELSE Start \/ Started \/ Wait \/ Write \/ Final \/ Refused \/ Clock \/ Beside \/ Part \/ Gathered \/ Whole \/ Scattered
TraceSpec == TraceInit /\ [][TraceNext]_vars
=================================================================================
