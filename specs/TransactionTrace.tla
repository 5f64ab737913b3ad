--------------------------- MODULE TransactionTrace ---------------------------
(* Single transactions with any mixture of replies: tags of their own link   *)
(* frequency, encodings and payload lengths, as colliding tags may have.     *)
EXTENDS LinkTiming, TraceLib
VARIABLES i, l
tvars == <<i, l>>
T == Traces[i]
Tol == 4
Long(x) == LET ds == {TagTime(y.n, y.m, y.ext = 1, y.trcal, y.dr) : y \in Range(x.replies)} IN CHOOSE m \in ds : \A d \in ds : d <= m
Clauses(x) ==
  LET frame == (IF x.query = 1 THEN Full(x.tari, x.rtcal, x.trcal, x.delim) ELSE Sync(x.tari, x.rtcal, x.delim))
               + Bits(x.n0, x.n1, x.tari, x.rtcal)
      t1 == T1Min(x.rtcal, x.trcal, x.dr, x.temp = 1)
      long == Long(x) IN
  {C("C19.mixed_command", Near(x.cdur, frame, Tol) /\ Near(x.cend, x.start + frame, Tol)),
   C("C19.mixed_reply_start", Near(x.rstart, x.start + frame + t1, Tol)),
   C("C19.mixed_longest_reply", Near(x.rdur, long, Tol) /\ Near(x.rend, x.start + frame + t1 + long, 2 * Tol)),
   C("C19.mixed_duration", Near(x.dur, MaxI(frame + t1 + long + T2Max(x.trcal, x.dr), frame + T4(x.rtcal)), 2 * Tol)),
   C("C19.mixed_finish", Near(x.fin, x.start + x.dur, Tol)),
   \* nothing is received from a collision, and a faultless lone reply is
   C("C18.mixed_reception", x.got = (IF Len(x.replies) = 1 THEN 1 ELSE 0))}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(T.ev)
             /\ Report(Clauses(T.ev[l]), i, l)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
