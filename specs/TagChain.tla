------------------------------ MODULE TagChain ------------------------------
(* The chain of states of one tag reading: Arbitrate, Reply, Acknowledged,  *)
(* one or several Secured, absorption.  c.sc is the scenario, c.m the number*)
(* of Secured states, c.t[k] the time of one attempt in state k.            *)
EXTENDS Integers, Sequences

States(c) == 3 + c.m
Final(c) == States(c) + 1
Idx(c, k) == IF k > 4 THEN 4 ELSE k      \* all chunks share one setting
Time(c, k) == c.t[Idx(c, k)]

NewChain(c) == [cur |-> 1, now |-> 0, tx |-> 0, visits |-> [k \in 1 .. Final(c) |-> 0],
                att |-> [k \in 1 .. States(c) |-> 0], suc |-> [k \in 1 .. States(c) |-> 0]]

Attempt(c, s, ok) ==
  LET k == s.cur
      to == IF ok THEN k + 1 ELSE IF c.sc = 1 THEN 1 ELSE k
      done == to = Final(c)
      \* staying in place is no new visit; neither is the start of the next transmission
      v == IF ok \/ c.sc = 1 THEN [s.visits EXCEPT ![to] = @ + 1] ELSE s.visits
  IN [s EXCEPT !.cur = IF done THEN 1 ELSE to, !.now = @ + Time(c, k), !.visits = v,
               !.tx = IF done THEN @ + 1 ELSE @,
               !.att[k] = @ + 1, !.suc[k] = IF ok THEN @ + 1 ELSE @]
Done(c, s) == c.n # -1 /\ s.tx >= c.n
=============================================================================
