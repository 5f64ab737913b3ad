------------------------------ MODULE Parallel ------------------------------
(* One command line: for every parameter the list of values given.  What has *)
(* to be run (Jobs), when nothing may run (Rejected), and the pool of        *)
(* workers that runs the jobs: each is taken in order by a free worker,      *)
(* finishes at any time, and its result is kept for its own position.        *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[k] : k \in 1 .. Len(s)}
Multi(g) == {n \in DOMAIN g : Len(g[n]) > 1}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Asc(S \ {m})
\* ping-pong, RFID: one parameter at most has several values
RejectedOne(g) == Cardinality(Multi(g)) > 1
JobsOne(g) == IF Multi(g) = {} THEN << [n \in DOMAIN g |-> g[n][1]] >>
  ELSE LET v == CHOOSE v \in Multi(g) : TRUE  a == Asc(Rng(g[v])) IN
       [k \in 1 .. Len(a) |-> [n \in DOMAIN g |-> IF n = v THEN a[k] ELSE g[n][1]]]
\* tag-time: parameter sets are pairs of a vector of probabilities and a vector of times
RejectedSets(g) == \/ g.scenario[1] \notin 1 .. 3
                   \/ g.scenario[1] = 3 /\ g.chunks_number[1] < 1
                   \/ Len(g.probability) # Len(g.processing_time)
JobsSets(g) == [k \in 1 .. Len(g.probability) |-> [n \in DOMAIN g |->
   IF n \in {"probability", "processing_time"} THEN g[n][k] ELSE g[n][1]]]
Rejected(sets, g) == IF sets THEN RejectedSets(g) ELSE RejectedOne(g)
Jobs(sets, g) == IF Rejected(sets, g) THEN <<>> ELSE IF sets THEN JobsSets(g) ELSE JobsOne(g)
=============================================================================
