------------------------------- MODULE RegionsTrace -------------------------------
(* Validates histories of parts of arrays.  The state is the contents of all arrays and
   which part each answer was; parts are parts of the arrays themselves, so writes to one
   are seen in the other.                                                            *)
EXTENDS Regions, Values, TLC, Json, IOUtils
CONSTANT Shards
C == INSTANCE Cube
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

RECURSIVE Prod(_, _)
Prod(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * Prod(s, k + 1)
Shape(Q) == [k \in 1..Len(Q) |-> Q[k].shape]
Strides(s) == [k \in 1..Len(s) |-> Prod(s, k + 1)]
(* element m (from 0) of a part with first corner f and shape s, as a place in the array *)
Into(Q, f, s, m) ==
  LET st == Strides(s)  at == Strides(Shape(Q))
      RECURSIVE F(_) F(k) == IF k > Len(Q) THEN 0 ELSE (((m \div st[k]) % s[k]) + f[k])*at[k] + F(k + 1)
  IN F(1) + 1

Exists(T, a) == a.inst = 2 \/ C!HasNeighbour(T.layouts[1][1], a.rank, C!DirX(a.b), C!DirY(a.b))
Part(T, a) ==
  LET Q == T.qs[a.q].dims  dx == C!DirX(a.b)  dy == C!DirY(a.b)
      s == RegionShape(Q, dx, dy, a.n, a.inner)
      f == [k \in 1..Len(Q) |-> First(Q[k], dx, dy, a.n, a.inner)]
  IN [q |-> a.q, shape |-> s, at |-> [m \in 1..Prod(s, 1) |-> Into(Q, f, s, m - 1)]]
Fits(T, a) == InArray(T.qs[a.q].dims, C!DirX(a.b), C!DirY(a.b), a.n, a.inner)
Claimed(T, a) == ~a.inner \/ ~Fits(T, a) \/ Enough(T.qs[a.q].dims, C!DirX(a.b), C!DirY(a.b), a.n)
Contents(arr, part) == [m \in 1..Len(part.at) |-> arr[part.q][part.at[m]]]

(* the value given to element m by the k-th write *)
Given(Q, k, m) == Held(Modulus(Q.dtype), Special(Q.dtype, Q.special), 100000 * k + m)
RECURSIVE Walk(_, _, _, _)
Walk(T, k, arr, parts) ==
  IF k > Len(T.answers) THEN <<>>
  ELSE LET a == T.answers[k]  no == TLCEval(Append(parts, <<>>)) IN
    CASE a.op = "view" ->
           IF ~Exists(T, a) THEN (IF a.none THEN Walk(T, k + 1, arr, no) ELSE << "a boundary that the cube does not have", k, a >>)
           ELSE IF a.none THEN << "no boundary where there is a neighbour", k, a >>
           ELSE IF ~Claimed(T, a) THEN Walk(T, k + 1, arr, no)
           ELSE IF ~Fits(T, a) THEN
             (IF a.error = "OutOfBoundsError" THEN Walk(T, k + 1, arr, no)
              ELSE << "a part beyond the array was not refused", k, a >>)
           ELSE IF a.error # "" THEN << "a part of the array was refused", k, a >>
           ELSE LET part == TLCEval(Part(T, a)) IN
             IF a.shape # part.shape THEN << "a part has the wrong shape", k, [got |-> a, want |-> part.shape] >>
             ELSE IF a.values # Contents(arr, part) THEN << "a part lies elsewhere", k, [got |-> a, want |-> Contents(arr, part)] >>
             ELSE Walk(T, k + 1, arr, TLCEval(Append(parts, part)))
      [] a.op = "fill" ->
           IF parts[a.of] = <<>> THEN Walk(T, k + 1, arr, no)
           ELSE LET part == parts[a.of]
                    pl == [x \in 1..Len(arr[part.q]) |->
                            LET m == { m \in 1..Len(part.at) : part.at[m] = x } IN
                            IF m = {} THEN arr[part.q][x] ELSE Given(T.qs[part.q], k, CHOOSE y \in m : TRUE)]
                    new == TLCEval([arr EXCEPT ![part.q] = TLCEval(pl)])
                IN IF a.arrays # new THEN << "writing to a part of an array did something else", k, a.of >>
                   ELSE Walk(T, k + 1, a.arrays, no)
      [] a.op = "look" ->
           IF parts[a.of] = <<>> THEN Walk(T, k + 1, arr, no)
           ELSE IF a.values # Contents(arr, parts[a.of])
                THEN << "an earlier part does not show the array", k, [got |-> a, want |-> Contents(arr, parts[a.of])] >>
                ELSE Walk(T, k + 1, arr, no)
      [] OTHER -> Walk(T, k + 1, TLCEval([arr EXCEPT ![a.q] = TLCEval([m \in 1..Len(arr[a.q]) |-> Given(T.qs[a.q], k, m)])]), no)
Start(T) == [q \in 1..Len(T.qs) |-> [m \in 1..Prod(Shape(T.qs[q].dims), 1) |-> Held(Modulus(T.qs[q].dtype), Special(T.qs[q].dtype, T.qs[q].special), 1000*q + m)]]
Bad(T) == IF "crash" \in DOMAIN T THEN << "the answers could not be observed", 0, T.crash >>
          ELSE IF T.first # Start(T) THEN << "the arrays are not as they were given", 0, "" >>
          ELSE Walk(T, 1, Start(T), <<>>)
Check(T) == \E b \in {TLCEval(Bad(T))} :
  IF b = <<>> THEN TRUE
  ELSE PrintT("@REJECT " \o ToJson([id |-> T.id, clauses |-> << b[1] >>, why |-> [step |-> b[2], found |-> b[3]]]))
TraceInit == i \in 1..Shards
TraceNext == i <= Len(Trace) /\ Check(Trace[i]) /\ i' = i + Shards
TraceSpec == TraceInit /\ [][TraceNext]_i
=================================================================================
