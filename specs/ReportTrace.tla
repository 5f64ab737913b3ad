----------------------------- MODULE ReportTrace -----------------------------
(* Reports and files of the real models, one working folder per trace: every *)
(* event is one call with what it was given, what it showed and drew, and    *)
(* all files there afterwards; "second" lets the next second begin.          *)
EXTENDS TraceLib, Reports
VARIABLES i, l, was, kept
tvars == <<i, l, was, kept>>
T == Traces[i]
\* kept: files (name and content) which nothing may change any more; was: all files after the last call
Obtained(e) == IF e.kind = "tt" THEN [k \in 1 .. Len(e.whole) |-> <<MeanOf(e.whole[k], e.n)>>] ELSE e.res
Req(e) == [sets |-> e.sets, vals |-> e.vals, params |-> e.params, res |-> IF e.exact THEN Obtained(e) ELSE e.shown]
Many(e) == e.many
Clauses(e) ==
  IF e.op = "second" THEN {} ELSE
  LET r == Req(e)  f == FileOf(r)  saves == e.save /\ (Many(e) \/ e.kind = "pp") IN
  {C("C30.works", ~e.failed)} \cup
  (IF e.failed THEN {} ELSE
  {C("C30.values_shown", e.sets \/ ~Many(e) \/ e.listed = Listed(r)),
   C("C30.results_beside_their_values", ~e.exact \/ e.shown = r.res),
   C("C30.parameters_shown", \A n \in DOMAIN e.static : Has(e.params, n) /\ e.static[n] = e.params[n]),
   C("C30.mean_per_transmission", e.kind # "tt" \/ (Len(e.meanm) = Len(e.wholem) /\ \A k \in 1 .. Len(e.meanm) : Near(e.meanm[k] * e.n, e.wholem[k], e.n))),
   C("C30.whole_time_shown", e.kind # "tt" \/ Many(e) \/ Near(e.total, e.wholem[1], 1)),
   C("C30.time_of_a_simulation", e.kind # "rf" \/ Near(e.took * Len(e.times), SumSeq(e.times), Len(e.times))),
   C("C30.plotted_pairs", \A k \in 1 .. Len(e.plots) : Len(e.plots[k].x) = Len(e.plots[k].y)
        /\ e.plots[k].x = (IF e.sets THEN [h \in 1 .. Len(r.res) |-> h - 1] ELSE Listed(r))
        /\ (e.exact => e.plots[k].y = [h \in 1 .. Len(r.res) |-> r.res[h][1]])),
   C("C30.plotted_when_asked", e.drawn = (Many(e) /\ e.plot)),
   C("C30.saves_only_when_asked", saves \/ Range(e.files) = was),
   C("C30.saved", ~saves \/ \E x \in Range(e.files) \ kept : x.content = f),
   C("C30.nothing_else_saved", ~saves \/ Cardinality(Range(e.files) \ was) <= 1),
   C("C30.earlier_files_kept", kept \subseteq Range(e.files))})
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ was = {} /\ kept = {}
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ was' = (IF T.ev[l].op = "second" THEN was ELSE Range(T.ev[l].files))
             /\ kept' = (IF T.ev[l].op = "second" THEN was ELSE kept)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
