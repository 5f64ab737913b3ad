------------------------------ MODULE PingPong ------------------------------
(* Stop-and-wait exchange.  cfg: interval, channel delay, service delay     *)
(* (ticks) and number of pings (-1: unlimited).                             *)
EXTENDS Integers, Sequences

(* ph: what is going on until time due                                      *)
NewRun == [ph |-> "start", due |-> 0, now |-> 0, sent |-> 0, acked |-> 0, missed |-> 0,
           bad |-> 0, ints |-> 0, passes |-> 0, got |-> TRUE, lost |-> 0, served |-> 0]

SendPing(c, s) == [s EXCEPT !.ph = "ping", !.sent = @ + 1, !.passes = @ + 1,
                            !.due = s.now + c.ch, !.got = FALSE]
Timeout(c, s) ==
  LET g == IF s.sent > 0 /\ ~s.got THEN [s EXCEPT !.missed = @ + 1] ELSE s
  IN IF c.n = -1 \/ s.sent < c.n THEN SendPing(c, g) ELSE [g EXCEPT !.ph = "stopped"]
LosePing(c, s) == [s EXCEPT !.ph = "wait", !.due = s.now + c.i, !.ints = @ + 1, !.lost = @ + 1]
ServePing(c, s) == [s EXCEPT !.ph = "service", !.due = s.now + c.sv, !.served = @ + 1]
SendPong(c, s) == [s EXCEPT !.ph = "pong", !.due = s.now + c.ch, !.passes = @ + 1]
GetPong(c, s) == [s EXCEPT !.ph = "wait", !.due = s.now + c.i, !.acked = @ + 1,
                           !.got = TRUE, !.ints = @ + 1]

(* The transition due next; lose says what happens to a ping that arrives.  *)
Fire(c, s0, lose) ==
  LET s == [s0 EXCEPT !.now = s0.due]
  IN CASE s.ph \in {"start", "wait"} -> Timeout(c, s)
       [] s.ph = "ping" -> IF lose THEN LosePing(c, s) ELSE ServePing(c, s)
       [] s.ph = "service" -> SendPong(c, s)
       [] s.ph = "pong" -> GetPong(c, s)
       [] OTHER -> s
Running(s) == s.ph # "stopped"
InFlight(s) == IF s.ph \in {"ping", "pong"} THEN 1 ELSE 0
=============================================================================
