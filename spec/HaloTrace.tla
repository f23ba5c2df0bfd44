-------------------------------- MODULE HaloTrace --------------------------------
(* Validates recorded single updates (C02, C03, C04): each record holds the arrays of
   all ranks after the update; before it, element k of quantity q of rank r held the
   number Id(q, r, k), all different.                                              *)
EXTENDS Halo, Values, Json, IOUtils
CONSTANT Shards
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Bad(T) ==
  LET qs == T.qs
      st == TLCEval([q \in 1..Len(qs) |-> Strides(qs[q])])
      sz == TLCEval([q \in 1..Len(qs) |-> Size(qs[q])])
      nr == 6*T.L*T.L
      base == TLCEval([q \in 1..Len(qs) |-> IF q = 1 THEN 1 ELSE 1 + nr*sz[1]])
      Id(q, r, k) == base[q] + r*sz[q] + k
      nb == TLCEval(Neighbours(T.L))
      mod == TLCEval(Modulus(T.dtype))
      special == Special(T.dtype, T.special)
      want == [q \in 1..Len(qs) |-> [r \in 0..(nr-1) |-> [k \in 0..(sz[q]-1) |->
                 IF T.fails THEN Held(mod, special, Id(q, r, k))
                 ELSE LET a == After(T.kind, T.L, T.n, T.npts, nb, qs, st, r, q, k)
                      IN Held(mod, special, a[4] * Id(a[2], a[1], a[3]))]]]
      onCGrid == /\ qs[1][Axis(qs[1], "x")].iface = 0 /\ qs[1][Axis(qs[1], "y")].iface = 1
                 /\ qs[2][Axis(qs[2], "x")].iface = 1 /\ qs[2][Axis(qs[2], "y")].iface = 0
      mustFail == IF T.kind = "sync" THEN ~onCGrid
                  ELSE T.npts = 0 \/ \E q \in 1..Len(qs) : ~HaloFits(qs[q], T.npts)
      wrong == { <<q, r>> \in (1..Len(qs)) \X (0..(nr-1)) :
                   \/ Len(T.out[q][r+1]) # sz[q]
                   \/ \E k \in 0..(sz[q]-1) : T.out[q][r+1][k+1] # want[q][r][k] }
      first == LET w == CHOOSE w \in wrong : TRUE
                   k == CHOOSE k \in 0..(sz[w[1]]-1) : T.out[w[1]][w[2]+1][k+1] # want[w[1]][w[2]][k]
                   kept == want[w[1]][w[2]][k] = Held(mod, special, Id(w[1], w[2], k))
               IN [q |-> w[1], rank |-> w[2], element |-> k,
                   at |-> Local(qs[w[1]], st[w[1]], k),
                   want |-> want[w[1]][w[2]][k], got |-> T.out[w[1]][w[2]+1][k+1],
                   clause |-> IF kept THEN "element that must keep its value changed"
                              ELSE "halo or interface point has the wrong value"]
  IN IF T.hang THEN << "a rank did not return", "" >>
     ELSE IF T.deadlock THEN << "ranks wait for each other forever", "" >>
     ELSE IF T.misuse # "" THEN << "messages do not match", T.misuse >>
     ELSE IF ~T.over THEN << "an update was not finished", T.error >>
     ELSE IF mustFail # T.fails THEN << IF mustFail THEN "invalid request was accepted"
                                        ELSE "valid update raised an error", T.error >>
     ELSE IF T.mixed THEN << "ranks disagree on success", T.error >>
     ELSE IF T.spoilt # "" THEN << "a later update changed other quantities", T.spoilt >>
     ELSE IF wrong # {} THEN << first.clause, first >>
     ELSE IF ~T.fails /\ T.leftover # 0 THEN << "messages left undelivered", T.leftover >>
     ELSE <<>>

Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE
  ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> b[2]]))

TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
