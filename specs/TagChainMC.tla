----------------------------- MODULE TagChainMC -----------------------------
EXTENDS TagChain, TLC, FiniteSets
CONSTANTS Scs, Ms, N, MaxAtt
VARIABLES c, s, path
vars == <<c, s, path>>
Init == /\ c \in {[sc |-> sc, m |-> m, t |-> <<1, 2, 4, 8>>, n |-> N] : sc \in Scs, m \in Ms}
        /\ (c.sc # 3 => c.m = 1)
        /\ s = NewChain(c) /\ path = <<>>
Next == /\ ~Done(c, s) /\ Len(path) < MaxAtt /\ UNCHANGED c
        /\ \E ok \in BOOLEAN : s' = Attempt(c, s, ok) /\ path' = Append(path, <<s.cur, ok>>)
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(p, k) == IF k = 0 THEN 0 ELSE Time(c, p[k][1]) + Sum(p, k - 1)
TimeIsSumOfAttempts == s.now = Sum(path, Len(path))
Successes(k) == Cardinality({n \in 1 .. Len(path) : path[n] = <<k, TRUE>>})
\* every transmission passes every state once more than it falls back
EachStatePassed == \A k \in 1 .. States(c) : Successes(k) >= s.tx
\* states are entered in order: an attempt in k > 1 follows a success in k - 1
InOrder == \A n \in 2 .. Len(path) :
  LET a == path[n - 1][1]  ok == path[n - 1][2]  b == path[n][1]
  IN b = (IF ok THEN (IF a = States(c) THEN 1 ELSE a + 1) ELSE IF c.sc = 1 THEN 1 ELSE a)
TxCounts == s.tx = Successes(States(c)) /\ s.visits[Final(c)] = s.tx
NeverTooMany == s.tx <= c.n
NoFailureIsShortest == (Done(c, s) /\ \A n \in 1 .. Len(path) : path[n][2]) =>
   Len(path) = c.n * States(c)
=============================================================================
