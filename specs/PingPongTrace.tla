---------------------------- MODULE PingPongTrace ----------------------------
(* Events are snapshots of the statistics, one per distinct model time; the *)
(* last one is the report.  lose[k] tells whether ping k was made to be lost*)
EXTENDS PingPong, TraceLib
VARIABLES i, l, s
tvars == <<i, l, s>>
T == Traces[i]
Cfg == [i |-> T.i, ch |-> T.ch, sv |-> T.sv, n |-> T.n]
Lose(x) == x.sent >= 1 /\ x.sent <= Len(T.lose) /\ T.lose[x.sent] = 1
\* all transitions due until time t
RECURSIVE Advance(_, _)
Advance(x, t) == IF Running(x) /\ x.due <= t THEN Advance(Fire(Cfg, x, Lose(x)), t)
                 ELSE x
At(x, t) == Advance(x, t)
Clauses(e, n) ==
  IF e.op = "snap" THEN
    {C("C08.something_happens_exactly_when_due", n.now = e.tm),
     C("C08.no_step_missed", e.tm <= s.due),
     C("C08.sent", e.sent = n.sent), C("C08.acknowledged", e.acked = n.acked),
     C("C08.never_bad", e.bad = 0),
     C("C08.numbers_grow_by_one", ~Running(n) \/ e.num = n.sent),
     C("C09.missed", e.missed = n.missed),
     C("C09.conservation", e.sent - e.acked - e.missed \in {0, 1})}
  ELSE IF e.op = "multi" THEN
    {C("C09.listed_values_sorted_and_distinct",
       Range(e.listed) = Range(e.given) /\ \A k \in 2 .. Len(e.listed) : e.listed[k - 1] < e.listed[k]),
     C("C09.one_result_per_value", Len(e.res) = Cardinality(Range(e.given))),
     C("C09.results_belong_to_values",
       Len(e.res) = Len(e.listed) /\ \A k \in 1 .. Len(e.res) : Near(e.res[k], e.listed[k], 1)),
     C("C09.other_parameters_kept", e.other = 1)}
  ELSE
    {C("C08.all_pings_sent", T.cut = 1 \/ s.sent = T.n),
     C("C08.stops", T.cut = 1 \/ (~Running(s) /\ e.reason = "STOPPED")),
     C("C08.stops_in_time", T.cut = 1 \/ e.tm = s.now),
     C("C09.result_exists", e.hasres = 1 \/ (T.cut = 1 /\ s.ints = 0)),
     C("C09.miss_rate", e.hasres = 0 \/ Near(e.miss, (s.missed * 1000000) \div Max(1, s.sent), 1)),
     C("C09.avg_interval", e.hasres = 0 \/ e.avgi = T.i * 1000),
     C("C09.avg_delay", e.hasres = 0 \/ e.avgd = T.ch * 1000)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ s = NewRun
TraceNext == /\ l <= Len(T.ev)
             /\ LET e == T.ev[l] IN
                /\ s' = (IF e.op = "snap" THEN At(s, e.tm) ELSE s)
                /\ Report(Clauses(e, s'), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
