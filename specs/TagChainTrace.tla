---------------------------- MODULE TagChainTrace ----------------------------
(* Snapshots of the visit counters of the real event model, one per         *)
(* distinct model time, and the final report.                               *)
EXTENDS TagChain, TraceLib
VARIABLES i, l, s, o                \* o: outcomes of every state, where independence is judged
tvars == <<i, l, s, o>>
T == Traces[i]
Cfg == [sc |-> T.sc, m |-> T.m, t |-> T.t, n |-> T.n]
P(k) == T.p[Idx(Cfg, k)]             \* in sixteenths
Succ == Attempt(Cfg, s, TRUE)
Fail == Attempt(Cfg, s, FALSE)
Matches(e, x) == e.v = x.visits /\ e.tx = x.tx
After(e) ==
  IF e.op # "snap" \/ l = 1 THEN s
  ELSE IF Matches(e, Succ) THEN Succ ELSE IF Matches(e, Fail) THEN Fail
  \* neither: continue from what was seen
  ELSE [Fail EXCEPT !.visits = e.v, !.tx = e.tx, !.now = e.tm]
Cap(x) == IF x > 40000 THEN 40000 ELSE IF x < -40000 THEN -40000 ELSE x
Binomial(k, n, a) == LET d == Cap(16 * k - a * n) IN d * d <= 64 * n * a * (16 - a)
(* two events of probabilities a/16 and b/16 came together k times of n      *)
Joint(k, n, ab) == LET d == Cap(256 * k - ab * n) IN d * d <= 64 * n * ab * (256 - ab)
Both(n, F(_), H(_)) == Cardinality({k \in 1 .. n : F(k) /\ H(k)})
Independent(x, y, a, b) ==
  LET n == Min(Len(x), Len(y)) IN
  /\ Joint(Both(n, LAMBDA k : x[k], LAMBDA k : y[k]), n, a * b)
  /\ Joint(Both(n, LAMBDA k : x[k], LAMBDA k : ~y[k]), n, a * (16 - b))
NoEcho(x, a) ==                      \* neighbouring attempts in one state
  LET n == Len(x) \div 2 IN
  /\ Joint(Both(n, LAMBDA k : x[2 * k - 1], LAMBDA k : x[2 * k]), n, a * a)
  /\ Joint(Both(n, LAMBDA k : x[2 * k - 1], LAMBDA k : ~x[2 * k]), n, a * (16 - a))
Clauses(e, n) ==
  IF e.op = "snap" THEN
    IF l = 1 THEN {C("C10.starts_at_zero", e.tm = 0 /\ Matches(e, s))}
    ELSE {C("C10.next_state", Matches(e, Succ) \/ Matches(e, Fail)),
          C("C10.certain_success", P(s.cur) = 16 => Matches(e, Succ)),
          C("C10.impossible_success", P(s.cur) = 0 => Matches(e, Fail)),
          C("C10.attempt_lasts_processing_time", e.tm = s.now + Time(Cfg, s.cur)),
          C("C10.no_attempt_after_last", ~Done(Cfg, s))}
  ELSE {C("C10.stops_when_complete", T.cut = 1 \/ (Done(Cfg, s) /\ e.reason = "STOPPED")),
        C("C10.total_time", T.cut = 1 \/ e.tm = s.now),
        C("C10.probability", \A k \in 1 .. States(Cfg) : Binomial(s.suc[k], s.att[k], P(k))),
        C("C10.independent_states", T.ind = 1 => \A j, k \in 1 .. States(Cfg) : j < k => Independent(o[j], o[k], P(j), P(k))),
        C("C10.independent_attempts", T.ind = 1 => \A k \in 1 .. States(Cfg) : NoEcho(o[k], P(k)))}
TraceInit == /\ i \in 1 .. Len(Traces) /\ l = 1 /\ s = NewChain(Cfg)
             /\ o = IF T.ind = 1 THEN [k \in 1 .. States(Cfg) |-> <<>>] ELSE <<>>
TraceNext == /\ l <= Len(T.ev)
             /\ s' = After(T.ev[l]) /\ Report(Clauses(T.ev[l], s'), i, l)
             /\ o' = IF T.ind = 0 \/ s' = s THEN o
                     ELSE [o EXCEPT ![s.cur] = Append(@, s'.suc[s.cur] > s.suc[s.cur])]
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
