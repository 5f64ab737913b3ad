---------------------------- MODULE RegistryTrace ----------------------------
(* `sim list` and `sim run NAME` on trees of model packages.                 *)
EXTENDS TraceLib, Registry
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Clauses(e) ==
  CASE e.op = "list" ->
    {C("C27.list_works", e.rc = 0),
     C("C27.listed", e.rc = 0 => Range(e.listed) = Range(Listed(T.pkgs)) /\ Len(e.listed) = Cardinality(Range(e.listed))),
     C("C27.order", e.listed = Listed(T.pkgs)),
     C("C27.reported", e.reports >= Reported(T.pkgs)),
     C("C27.no_false_report", Reported(T.pkgs) = 0 => e.reports = 0)}
  [] e.op = "run" ->
    {C("C27.runs_own_command", Runs(T.pkgs, e.name) => e.rc = 0 /\ e.ran = <<e.name>>),
     C("C27.arguments_passed", Runs(T.pkgs, e.name) => e.got = e.arg),
     C("C27.unusable_not_runnable", ~Runs(T.pkgs, e.name) => e.rc # 0 /\ e.ran = <<>>)}
  [] e.op = "help" -> {C("C27.commands_of_run", e.rc = 0 /\ Range(e.listed) = Range(Listed(T.pkgs)))}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
