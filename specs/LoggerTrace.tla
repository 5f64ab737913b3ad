----------------------------- MODULE LoggerTrace -----------------------------
EXTENDS Logger, TraceLib
VARIABLES i, l, s
tvars == <<i, l, s>>
T == Traces[i]
After(e) ==
  CASE e.op = "setup" -> DoSetup(s, e.cfg, e.force)
    [] e.op = "runid" -> [s EXCEPT !.rid = e.rid]
    [] e.op = "log" -> Write(s, e.lvl, e.tok)
    [] OTHER -> s
(* got: what appeared in any sink while the operation was performed          *)
Sinks(e) == {e.got[n].sink : n \in 1 .. Len(e.got)}
Clauses(e) ==
  IF e.op # "log" THEN {C("C07.nothing_written", e.got = <<>>)}
  ELSE {C("C07.reaches_exactly_the_sinks", Sinks(e) = Reaches(s, e.lvl)),
        C("C07.written_once", Len(e.got) = Cardinality(Sinks(e))),
        C("C07.file_starts_afresh", s.fname = "" \/ s.fname \notin Reaches(s, e.lvl) \/
            (s.fname \in DOMAIN e.files /\ e.files[s.fname] = Write(s, e.lvl, e.tok).held)),
        C("C07.no_error", e.ex = ""),
        C("C07.stamped_with_time", \A n \in 1 .. Len(e.got) : e.got[n].tm = e.tm),
        C("C07.stamped_with_run_id", \A n \in 1 .. Len(e.got) : e.got[n].rid = s.rid),
        C("C07.level_kept", \A n \in 1 .. Len(e.got) : e.got[n].lvl = e.lvl)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ s = NewLogger(T.rid)
TraceNext == /\ l <= Len(T.ev)
             /\ LET e == T.ev[l] IN Report(Clauses(e), i, l) /\ s' = After(e)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
