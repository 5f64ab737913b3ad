------------------------------ MODULE TagTrace ------------------------------
(* Commands heard and power changes of one tag, with what it did.           *)
EXTENDS Gen2Tag, TraceLib
VARIABLES i, l, t, rn
tvars == <<i, l, t, rn>>
T == Traces[i]
Bank(b) == IF b = 1 THEN T.epc ELSE IF b = 2 THEN T.tid ELSE T.user
Cmd(e) ==
  LET k == IF e.slot < 0 THEN 0 ELSE e.slot IN
  CASE e.op = "query" -> [op |-> "query", s |-> e.s, target |-> e.target, sel |-> e.selc \in {0, 2}, q |-> e.q,
                          m |-> e.m, ext |-> e.ext, k |-> k]
    [] e.op = "qrep" -> [op |-> "qrep", s |-> e.s]
    [] e.op = "qadj" -> [op |-> "qadj", s |-> e.s, u |-> e.u, k |-> k]
    [] OTHER -> [op |-> e.op, ok |-> rn # -1 /\ e.rn = rn]
Outs(e) == IF e.op = "power" THEN {O(u, "none") : u \in SetPower(t, e.tm, T.p, e.pw, T.sens)}
           ELSE Outcomes(t, Cmd(e))
SlotOK(o, e) == (InRound(o.t) => e.q1 = o.t.q)
                /\ (o.t.st = "REPLY" => e.slot = 0)
                /\ (o.t.st = "ARBITRATE" /\ o.t.slot > 0 => e.slot = o.t.slot)
Full(o, e) == o.t.st = e.st /\ o.reply = e.r /\ SlotOK(o, e) /\ o.t.fl = e.fl
Best(e) == LET os == Outs(e)
               a == {o \in os : Full(o, e)}
               b == {o \in os : o.t.st = e.st /\ SlotOK(o, e)} IN
           IF a # {} THEN CHOOSE o \in a : TRUE ELSE IF b # {} THEN CHOOSE o \in b : TRUE ELSE CHOOSE o \in os : TRUE
\* on from what was seen
Sync(o, e) == [o.t EXCEPT !.st = e.st, !.fl = e.fl,
                !.slot = IF e.st = "REPLY" THEN 0 ELSE IF e.st # "ARBITRATE" THEN @
                         ELSE IF Full(o, e) THEN o.t.slot ELSE e.slot,
                !.q = IF e.st \in {"ARBITRATE", "REPLY"} THEN e.q1 ELSE @,
                !.act = IF Acked(o.t) \/ o.t.act # NoSession THEN @ ELSE IF e.st \in {"OFF", "READY"} THEN @ ELSE 0]
FlStr(f) == [s \in 0 .. 3 |-> f[s + 1]]
Ev(l0) == [T.ev[l0] EXCEPT !.fl = FlStr(@)]
Words(e) == LET b == Bank(e.bank)
                lo == 2 * e.ptr + 1
                hi == Min(Len(b), 2 * (e.ptr + e.cnt)) IN SubSeq(b, lo, hi)
OldFl(e) == {o.t.fl : o \in Outs(e)}
Clauses(e) ==
  LET os == Outs(e)
      sts == \E o \in os : o.t.st = e.st
      stsl == \E o \in os : o.t.st = e.st /\ SlotOK(o, e) IN
  IF e.op = "power"
  THEN {C("C22.tag_power", sts), C("C14.tag_power", sts), C("C15.power_up", e.fl \in OldFl(e)),
        C("C22.tag_keeps_no_power_when_off", e.st = "OFF" => e.pon = 0)}
  ELSE {C("C14.state", sts), C("C14.slot", sts => stsl),
        C("C14.reply", stsl => \E o \in os : o.t.st = e.st /\ SlotOK(o, e) /\ o.reply = e.r),
        C("C14.silent_when_off", t.st = "OFF" => e.r = "none" /\ e.st = "OFF"),
        C("C14.number", e.r \in {"rn", "handle"} => e.rrn \in 0 .. 65535),
        C("C14.epc", e.r = "epc" => e.data = T.epc),
        C("C14.memory", e.r = "data" => e.data = Words(e) /\ e.rrn = rn),
        C("C14.reply_encoding", e.r # "none" => LET o == Best(e) IN e.rm = o.t.m /\ e.rext = o.t.ext),
        C("C14.reply_rate", e.op = "query" /\ e.st \in {"ARBITRATE", "REPLY"} =>
             Near(e.pri, IF e.dr = 8 THEN e.trcal * 125 ELSE (e.trcal * 3 * 125) \div 8, 2)),
        C("C15.flags", e.fl \in OldFl(e)),
        C("C15.other_sessions", \A s \in 0 .. 3 : s # t.act => e.fl[s] = t.fl[s]),
        C("C15.not_due", ~Acked(t) => e.fl = t.fl),
        C("C20.tag_follows", e.op = "qadj" => sts /\ stsl),
        C("C20.tag_counts", e.op = "qadj" => e.adj = (IF InRound(t) /\ e.s = t.act /\ t.q + e.u \in 0 .. 15 THEN 1
                                                      ELSE IF InRound(t) /\ e.s = t.act THEN e.adj ELSE 0)),
        C("C20.q_range", InRound(Best(e).t) => e.q1 \in 0 .. 15)}
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ t = NewTag /\ rn = -1
TraceNext == /\ l <= Len(T.ev)
             /\ LET e == Ev(l) IN
                /\ Report(Clauses(e), i, l)
                /\ t' = Sync(Best(e), e)
                /\ rn' = IF e.op = "power" THEN rn ELSE IF e.r \in {"rn", "handle"} THEN e.rrn ELSE rn
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
