----------------------------- MODULE MatrixTrace -----------------------------
(* The matrix model and the analytical model against the chain of TagChain. *)
EXTENDS TraceLib
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
One == 1024
(* one step of the chain: probability of going from r to c (row r) in 1/One *)
StepP(sc, p, r, c) ==
  LET n == Len(p) IN
  IF r = n + 1 THEN (IF c = n + 1 THEN One ELSE 0)
  ELSE IF c = r + 1 THEN p[r]
  ELSE IF c = (IF sc = 1 THEN 1 ELSE r) THEN One - p[r] ELSE 0
RECURSIVE Cum(_, _, _, _)
Cum(sc, p, r, c) == IF c = 0 THEN 0 ELSE Cum(sc, p, r, c - 1) + StepP(sc, p, r, c)
\* a fall back to the own state 1 in scenario 1 and the step share no column: fine
MatrixOK(e) ==
  LET n == Len(e.p) + 1 IN
  Len(e.m) = n /\ \A r \in 1 .. n : Len(e.m[r]) = n /\
     \A c \in 1 .. n : e.m[r][c] = Cum(e.sc, e.p, r, c)

(* deterministic walk: nxt[k] is the only successor of k, the last absorbs   *)
RECURSIVE Walk(_, _, _, _)
Walk(nxt, t, k, acc) == IF k = Len(nxt) + 1 THEN acc ELSE Walk(nxt, t, nxt[k], acc + t[k])

(* expected absorption time (in the caller's unit) with p = a/d small:       *)
(* scenario 1: (t1 d^3 + a1 t2 d^2 + a1 a2 t3 d + a1 a2 a3 t4) d / a1a2a3a4  *)
Num1(e) == LET a == e.a  t == e.t  d == e.d IN
  d * (t[1] * d * d * d + a[1] * t[2] * d * d + a[1] * a[2] * t[3] * d + a[1] * a[2] * a[3] * t[4])
\* e.v is the returned value times a1 a2 a3 a4, in the same unit
Clauses(e) ==
  CASE e.op = "matrix" -> {C("C11.matrix", MatrixOK(e))}
    [] e.op = "batch" -> {C("C11.one_matrix_per_set", e.n = e.want),
                          C("C11.batch_in_order", e.res = e.exp)}
    [] e.op = "walk" -> {C("C11.mean_of_stays", e.v = Walk(e.nxt, e.t, 1, 0))}
    [] e.op = "trials" -> {C("C11.number_of_walks", e.v = e.n)}
    [] e.op = "an1" -> {C("C12.scenario1", Abs(e.v - Num1(e)) <= 1 + Num1(e) \div 1000000)}
    \* m[k] is t[k] / p[k] in whole units
    [] e.op = "an2" -> {C("C12.scenario2", Near(e.v, SumSeq(e.m), 1))}
    [] e.op = "an3" -> {C("C12.scenario3", Near(e.v, SumSeq(e.m) + e.c * e.mc, 1))}
    \* scenario 1 with arbitrarily small probabilities: m[k] = t[k] / (p[k] ... p[n])
    [] e.op = "an1small" -> {C("C12.scenario1_small", Near(e.v, SumSeq(e.m), 1))}
    [] e.op = "anbatch" -> {C("C12.one_per_set", Len(e.v) = Len(e.want)),
                            C("C12.in_order", Len(e.v) = Len(e.want) /\
                               \A k \in 1 .. Len(e.v) : Near(e.v[k], e.want[k], 1))}
    [] OTHER -> {C("unknown", FALSE)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
