------------------------------ MODULE CliTrace ------------------------------
(* Command lines of the three models run for real: every simulation that was *)
(* run (its parameters in effect and its result, in the order of finishing)  *)
(* and what was reported at the end.                                         *)
EXTENDS TraceLib, Parallel
VARIABLES i, l, ran
tvars == <<i, l, ran>>
T == Traces[i]
J == Jobs(T.sets, T.given)
Rej == Rejected(T.sets, T.given)
Count(s, x) == Cardinality({k \in 1 .. Len(s) : s[k] = x})
Results(p) == {ran[k].r : k \in {k \in 1 .. Len(ran) : ran[k].p = p}}
Varies == Len(J) > 1 \/ Multi(T.given) # {}
End(e) ==
  IF Rej THEN {C("C26.rejected", e.failed), C("C26.rejected_before_anything_runs", ran = <<>> /\ e.started = 0)}
  ELSE
  {C("C26.works", ~e.failed),
   C("C26.every_value_is_run_once", e.started = Len(J) /\ Len(ran) = Len(J) /\ \A k \in 1 .. Len(J) : Count([x \in 1 .. Len(ran) |-> ran[x].p], J[k]) = Count(J, J[k])),
   C("C26.as_many_results", Len(e.res) = Len(J)),
   C("C26.result_of_its_own_value", \A k \in 1 .. Min(Len(J), Len(e.res)) : e.res[k] \in Results(J[k])),
   C("C26.results_of_equal_sets", \A k \in 1 .. Min(Len(J), Len(e.res)) :
        Cardinality({e.res[h] : h \in {h \in 1 .. Min(Len(J), Len(e.res)) : J[h] = J[k]}}) = Cardinality(Results(J[k]))),
   C("C26.listed_values", T.sets \/ Multi(T.given) = {} \/ e.listed = [k \in 1 .. Len(J) |-> J[k][CHOOSE n \in Multi(T.given) : TRUE]]),
   C("C26.static_parameters", \A n \in DOMAIN e.static : Len(T.given[n]) = 1 => e.static[n] = T.given[n][1]),
   C("C26.plotted_pairs", \A k \in 1 .. Len(e.plot) : e.plot[k])}
Clauses(e) ==
  IF e.op = "end" THEN End(e)
  ELSE {C("C26.nothing_runs_when_rejected", ~Rej),
        C("C26.parameters_in_effect", Rej \/ e.p \in Range(J))}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ ran = <<>>
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ ran' = (IF T.ev[l].op = "run" THEN Append(ran, [p |-> T.ev[l].p, r |-> T.ev[l].r]) ELSE ran)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
