------------------------------ MODULE TallyTrace ------------------------------
(* Random choices: k successes in n independent draws with probability a/16 *)
(* must lie within 8 standard deviations; pairs of neighbouring draws too.  *)
EXTENDS TraceLib
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Cap(x) == IF x > 40000 THEN 40000 ELSE IF x < -40000 THEN -40000 ELSE x
(* (16 k - a n)^2 <= 64 n a (16 - a)                                        *)
Binomial(k, n, a) == LET d == Cap(16 * k - a * n) IN d * d <= 64 * n * a * (16 - a)
(* n geometric draws with success probability a/16 took k trials in all     *)
Geometric(k, n, a) == LET d == Cap(a * k - 16 * n) IN d * d <= 64 * 16 * n * (16 - a)
(* probability of n independent successes of x each, in units of 1/32768,   *)
(* error below n/2 and below 32768/(2(1 - x)) units                         *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 32768 ELSE (Pow(x, n - 1) * x + 16384) \div 32768
Clauses(e) ==
  CASE e.op = "binomial" -> {C(e.clause, Binomial(e.k, e.n, e.a))}
    [] e.op = "geometric" -> {C(e.clause, Geometric(e.k, e.n, e.a))}
    \* the same for a small success probability p, k in sixteenths of 1/p
    [] e.op = "rare" -> {C(e.clause, LET d == Cap(e.k - 16 * e.n) IN d * d <= 64 * 256 * e.n)}
    \* k rare things where n are expected
    [] e.op = "poisson" -> {C(e.clause, LET d == Cap(e.k - e.n) IN d * d <= 64 * e.n)}
    \* a probability found by bisection, in 1/16 000 000, against a/16
    [] e.op = "share" -> {C(e.clause, Near(e.v, 1000000 * e.a, 20))}
    \* against n independent successes of x/32768 each, in 1/32768
    [] e.op = "allof" -> {C(e.clause, Near(e.v, Pow(e.x, e.n), 2 + Min(e.n \div 2, 32768 \div Max(1, 32768 - e.x))))}
    [] e.op = "atleast" -> {C(e.clause, e.k >= e.n)}
    \* every value must occur
    [] e.op = "cover" -> {C(e.clause, Range(e.got) = Range(e.want))}
    [] OTHER -> {C("unknown", FALSE)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
