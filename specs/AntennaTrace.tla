---------------------------- MODULE AntennaTrace ----------------------------
(* Whole runs of the RFID model with any number of antennas: after every     *)
(* event the antenna in force, what was written about it meanwhile, and the  *)
(* power tags and reader got, which is that of the antenna in force (p: the   *)
(* power with each antenna alone).                                           *)
EXTENDS Antennas, TraceLib
VARIABLES i, l, a
tvars == <<i, l, a>>
T == Traces[i]
Tol == 2
RECURSIVE Attached(_)
Attached(n) == IF n = 0 THEN NoAntennas ELSE Attach(Attached(n - 1))
OnNow(e) == e.on = 1
(* the state at the event: power may have changed with it                    *)
At(e) == IF OnNow(e) /\ ~a.on THEN PowerOn(a, T.first = 1, e.tm) ELSE a
Allowed(e) == LET b == At(e) IN IF b.on THEN InForce(b, T.iv, e.tm, Tol) ELSE {b.idx}
\* what may be in force while the event runs
During(e) == {a.idx, e.idx}
Clauses(e) ==
  {C("C29.antenna_in_force", e.idx \in Allowed(e)),
   C("C29.one_in_force", e.same = 1 /\ e.n = T.n),
   C("C29.records_name_it", \A k \in 1 .. Len(e.recs) : e.recs[k].ai \in During(e) /\ e.recs[k].pos = e.recs[k].ai),
   C("C29.reads_name_it", \A k \in 1 .. Len(e.reads) : e.reads[k].ai \in During(e) /\ e.reads[k].pos = e.reads[k].ai),
   C("C29.reads_keep_it", \A k \in 1 .. Len(e.kept) : e.kept[k].ai = e.kept[k].was /\ e.kept[k].pos = e.kept[k].ai),
   C("C29.powers_tags", \A k \in 1 .. Len(e.pows) : \E j \in During(e) : Near(e.pows[k].pw, e.pows[k].p[j + 1], 3)),
   C("C29.hears_tags", \A k \in 1 .. Len(e.back) : \E j \in During(e) : Near(e.back[k].pw, e.back[k].p[j + 1], 3))}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ a = Attached(T.n)
TraceNext == /\ l <= Len(T.ev)
             /\ LET e == T.ev[l]
                    b == At(e) IN
                /\ Report(Clauses(e), i, l)
                /\ a' = [b EXCEPT !.on = OnNow(e), !.idx = e.idx]
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
