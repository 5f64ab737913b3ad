---------------------------- MODULE FiguresTrace ----------------------------
(* The figures of a run with many tags, against the records of its tags.    *)
(* rec: the rounds in which a tag was inventoried, 1 where its TID was read. *)
EXTENDS TraceLib
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Found(r) == Len(r.rec) > 0
Read(r) == \E k \in 1 .. Len(r.rec) : r.rec[k] = 1
Share(p(_), rs) == (1000000 * Cardinality({k \in 1 .. Len(rs) : p(rs[k])})) \div Len(rs)
RECURSIVE Sum(_, _, _)
Sum(rs, a, b) == IF a > b THEN 0 ELSE IF a = b THEN rs[a].rounds
                 ELSE LET m == (a + b) \div 2 IN Sum(rs, a, m) + Sum(rs, m + 1, b)
Clauses(e) ==
  LET n == Len(e.recs)  s == Sum(e.recs, 1, n) IN
  {C("C21.all_tags_kept", e.n = n),
   C("C21.inventory_probability", Near(e.ip, Share(Found, e.recs), 1)),
   C("C21.read_probability", Near(e.tp, Share(Read, e.recs), 1)),
   C("C21.average_rounds", Near(e.ar, (s \div n) * 100000 + ((s % n) * 100000) \div n, 1)),
   C("C20.reported_adjustments", e.qs = [k \in 1 .. n |-> e.recs[k].nadj])}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
