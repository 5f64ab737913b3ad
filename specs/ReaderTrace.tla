----------------------------- MODULE ReaderTrace -----------------------------
(* A real reader: inputs, the command it sent, what it announced.           *)
EXTENDS Gen2Reader, LinkTiming, TraceLib
VARIABLES i, l, r, h
tvars == <<i, l, r, h>>
(* h: consecutive Queries with the same target since power-up               *)
T == Traces[i]
Cfg == [switch |-> T.switch = 1, rpt |-> T.rpt, target |-> T.target, tid |-> T.tid = 1, words |-> T.words, q |-> T.q]
Outs(e) == CASE e.op = "on" -> {TurnOn(r, Cfg)}
             [] e.op = "off" -> {TurnOff(r, Cfg)}
             [] e.op = "timeout" -> Timeout(r, Cfg)
             [] e.op = "adjust" -> {Adjust(r, e.u)}
             [] OTHER -> Reply(r, Cfg, e.k, e.rn)
SameCmd(o, e) == o.cmd.op = e.cmd.op
SameAnn(o, e) == IF o.r.st = "OFF" \/ r.st = "OFF" THEN Range(o.ann) = Range(e.ann) /\ Len(o.ann) = Len(e.ann)
                 ELSE o.ann = e.ann
Good(o, e) == o.r.st = e.st /\ SameCmd(o, e) /\ SameAnn(o, e)
Best(e) == LET os == Outs(e) IN
           IF \E o \in os : Good(o, e) THEN CHOOSE o \in os : Good(o, e)
           ELSE IF \E o \in os : o.r.st = e.st THEN CHOOSE o \in os : o.r.st = e.st ELSE CHOOSE o \in os : TRUE
Frame(e) == LET p == IF e.cmd.op = "query" THEN Full(T.tari, T.rtcal, T.trcal, T.delim)
                     ELSE Sync(T.tari, T.rtcal, T.delim) IN
            p + Bits(e.n0, e.n1, T.tari, T.rtcal)
Due == IF T.switch = 0 THEN T.target ELSE IF h.n = 0 THEN A ELSE IF h.n < T.rpt THEN h.last ELSE 1 - h.last
SeenQuery(e) == IF e.st = "OFF" THEN [n |-> 0, last |-> A]
                ELSE IF e.cmd.op # "query" THEN h
                ELSE [n |-> IF h.n > 0 /\ e.cmd.target = h.last THEN h.n + 1 ELSE 1, last |-> e.cmd.target]
Clauses(e) ==
  LET b == Best(e)  os == Outs(e)  cmd == e.cmd IN
  IF b.err THEN {C("C16.unexpected_reply_is_error", e.err = 1)}
  ELSE IF e.err = 1 THEN {C("C16.no_error", FALSE), C("C17.no_error", e.op = "reply")}
  ELSE {C("C16.state", \E o \in os : o.r.st = e.st),
        C("C16.command", \E o \in os : o.r.st = e.st /\ SameCmd(o, e)),
        C("C16.announced", \E o \in os : Good(o, e)),
        C("C16.addressed_to_replier", cmd.op \in {"ack", "reqrn", "read"} => cmd.rn = b.r.rn),
        C("C16.query_parameters", cmd.op = "query" =>
            /\ cmd.q = b.r.q /\ cmd.dr = T.dr /\ cmd.m = T.m /\ cmd.ext = T.ext /\ cmd.sel = T.selc /\ cmd.s = T.s),
        C("C16.session", cmd.op \in {"qrep", "qadj"} => cmd.s = T.s),
        C("C20.query_adjust", cmd.op = "qadj" => cmd.u = e.u /\ cmd.s = T.s),
        C("C16.read_parameters", cmd.op = "read" => cmd.bank = 2 /\ cmd.ptr = 0 /\ cmd.cnt = T.words),
        C("C17.target", cmd.op = "query" => cmd.target = Due),
        C("C16.powered", (e.st = "OFF") = (e.pw = 0)),
        C("C19.preamble", cmd.op # "none" => (e.pre = 1) = (cmd.op = "query")),
        C("C19.frame_duration", cmd.op # "none" => Near(e.dur, Frame(e), 2)),
        C("C19.timeout", cmd.op # "none" =>
            Near(e.tmo, Frame(e) + T1Max(T.rtcal, T.trcal, T.dr, T.temp = 1) + T3, 4))}
Sync1(b, e) == [b.r EXCEPT !.st = e.st, !.tgt = IF e.cmd.op = "query" THEN e.cmd.target ELSE @]
TraceInit == i \in 1 .. Len(Traces) /\ l = 1 /\ r = NewReader(Cfg) /\ h = [n |-> 0, last |-> A]
TraceNext == /\ l <= Len(T.ev)
             /\ LET e == T.ev[l] IN Report(Clauses(e), i, l) /\ r' = Sync1(Best(e), e) /\ h' = SeenQuery(e)
             /\ l' = l + 1 /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
