----------------------------- MODULE PingPongMC -----------------------------
EXTENDS PingPong, TLC, FiniteSets
CONSTANTS Is, Chs, Svs, Ns
VARIABLES c, s, hist
vars == <<c, s, hist>>
(* hist: start times of pings, times pongs arrive and pings are lost        *)
Init == /\ c \in [i : Is, ch : Chs, sv : Svs, n : Ns] /\ s = NewRun
        /\ hist = [starts |-> <<>>, ends |-> <<>>]
Next == /\ Running(s)
        /\ \E lose \in BOOLEAN :
             /\ (s.ph # "ping" => ~lose)
             /\ s' = Fire(c, s, lose)
             /\ hist' = [starts |-> IF s'.sent > s.sent THEN Append(hist.starts, s'.now) ELSE hist.starts,
                         ends |-> IF s'.acked > s.acked \/ s'.lost > s.lost
                                  THEN Append(hist.ends, s'.now) ELSE hist.ends]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C08
OneInFlight == s.sent - s.acked - s.lost \in {0, 1} /\ InFlight(s) <= 1
IntervalAfterEnd == \A k \in 2 .. Len(hist.starts) : hist.starts[k] = hist.ends[k - 1] + c.i
ExchangeTakes == \A k \in 1 .. Len(hist.ends) :
   hist.ends[k] - hist.starts[k] \in {c.ch, 2 * c.ch + c.sv}
NeverBad == s.bad = 0
StopsOnTime == s.ph = "stopped" => /\ s.sent = c.n
                                   /\ s.now = (IF c.n = 0 THEN 0 ELSE hist.ends[Len(hist.ends)] + c.i)
NeverTooMany == c.n = -1 \/ s.sent <= c.n
Stops == <>(s.ph = "stopped")
\* C09
Conservation == s.sent = s.acked + s.missed + (IF s.ph = "stopped" \/ s.sent = 0 THEN 0
                                               ELSE IF s.ph = "wait" /\ s.got THEN 0 ELSE 1)
MissedAreTheLost == s.ph = "stopped" => s.missed = s.lost
Means == s.ph = "stopped" => s.ints = s.sent /\ s.passes = s.sent + s.acked
=============================================================================
