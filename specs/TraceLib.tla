------------------------------ MODULE TraceLib ------------------------------
(* Shared by the trace specifications: named clauses and their reporting.   *)
(* A trace specification never blocks on a violated clause; it prints the   *)
(* clause with its position and continues from the logged state, so one run *)
(* of TLC decides every clause at every position of every trace.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

C(n, b) == [n |-> n, ok |-> b]
Range(s) == {s[k] : k \in 1 .. Len(s)}
Has(r, f) == f \in DOMAIN r
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
Near(a, b, tol) == Abs(a - b) <= tol

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* IF/THEN keeps TLC from treating the test as a choice between actions.    *)
Report(cs, i, l) ==
  \A c \in cs : IF c.ok THEN TRUE
                ELSE PrintT(ToJson([viol |-> c.n, i |-> i, l |-> l]))
=============================================================================
