------------------------------- MODULE TagMC -------------------------------
(* All command sequences for one tag.                                       *)
EXTENDS Gen2Tag, TLC, Json, FiniteSets
CONSTANTS Ss, Qs, MaxQ, Targets, Sels, Updn, MaxAcks
VARIABLES t, act, g
vars == <<t, act, g>>
View == <<t, g>>
P == [s \in 1 .. 3 |-> 2]        \* persistence; gaps are 1 (kept) or 3 (lost)
(* g.acks[s]: acknowledgements with session s since the flag was last reset  *)
Zero == [s \in 0 .. 3 |-> 0]
Init == t = NewTag /\ act = [op |-> "init"] /\ g = [acks |-> Zero, due |-> 9, inv |-> Zero, fresh |-> FALSE, last |-> "none"]
Cmds ==
  {[op |-> "query", s |-> s, target |-> x, sel |-> m, q |-> q, m |-> 1, ext |-> 0, k |-> -1] :
      s \in Ss, x \in Targets, m \in Sels, q \in Qs}
  \cup {[op |-> "qrep", s |-> s, k |-> -1] : s \in Ss}
  \cup {[op |-> "qadj", s |-> s, u |-> u, k |-> -1] : s \in Ss, u \in {x - 1 : x \in Updn}}
  \cup {[op |-> o, ok |-> b] : o \in {"ack", "reqrn", "read"}, b \in BOOLEAN}
Hear(c) ==
  /\ IF c.op = "qadj" THEN t.q + c.u <= MaxQ ELSE TRUE
  /\ \E o \in Outcomes(t, c) :
       /\ t' = o.t
       /\ act' = c @@ [reply |-> o.reply]
       /\ g' = [acks |-> IF o.reply = "epc" /\ MaxAcks > 0 THEN [g.acks EXCEPT ![t.act] = @ + 1] ELSE g.acks,
                \* the session whose flag is due to be inverted
                due |-> IF MaxAcks = 0 THEN 9 ELSE IF o.reply = "epc" THEN t.act ELSE IF Acked(o.t) THEN g.due ELSE 9,
                inv |-> IF MaxAcks = 0 THEN Zero ELSE [s \in 0 .. 3 |-> g.inv[s] + (IF o.t.fl[s] # t.fl[s] THEN 1 ELSE 0)],
                fresh |-> FALSE, last |-> o.reply]
Off == /\ t.st # "OFF"
       /\ t' = [PowerOff(t, 0) EXCEPT !.off = 0] /\ act' = [op |-> "off"]
       /\ g' = [g EXCEPT !.due = 9, !.last = "none", !.fresh = FALSE]
On(gap) == /\ t.st = "OFF"
           /\ \E u \in PowerOn(t, gap, P) : t' = u
           /\ act' = [op |-> "on", gap |-> gap]
           /\ g' = [acks |-> [s \in 0 .. 3 |-> IF s = 0 \/ gap > 2 THEN 0 ELSE g.acks[s]],
                    inv |-> [s \in 0 .. 3 |-> IF s = 0 \/ gap > 2 THEN 0 ELSE g.inv[s]],
                    due |-> 9, fresh |-> TRUE, last |-> "none"]
Next == (\E c \in Cmds : Hear(c)) \/ Off \/ \E gap \in {1, 3} : On(gap)
Spec == Init /\ [][Next]_vars
Bound == \A s \in 0 .. 3 : g.acks[s] <= MaxAcks
GBound == MaxAcks = 0 \/ Bound

\* C14
TypeOK == /\ t.st \in {"OFF", "READY", "ARBITRATE", "REPLY", "ACKNOWLEDGED", "SECURED"}
          /\ t.q \in 0 .. 15 /\ t.slot \in Dead .. 2 ^ t.q - 1
          /\ InRound(t) \/ Acked(t) => t.act # NoSession
ReplyOnlyInSlotZero == t.st = "REPLY" => t.slot = 0
SilentWhenOff == t.st = "OFF" => g.last = "none"
Waiting == t.st = "ARBITRATE" => t.slot # 0
EpcOnlyFromReply == [][act'.op = "ack" /\ act'.reply = "epc" => t.st = "REPLY" /\ act'.ok]_vars
HandleAfterAck == [][act'.op = "reqrn" /\ act'.reply = "handle" => Acked(t) /\ act'.ok]_vars
DataAfterHandle == [][act'.op = "read" /\ act'.reply = "data" => t.st = "SECURED" /\ act'.ok]_vars
Joins == [][act'.op = "query" /\ InRound(t') => act'.sel /\ t'.fl[act'.s] = act'.target]_vars
\* C15
FlagChangesOnlyWhenDue ==
  [][act'.op \notin {"on"} =>
       \A s \in 0 .. 3 : t'.fl[s] # t.fl[s] =>
          /\ g.due = s /\ Acked(t)
          /\ act'.op = "query" \/ (act'.op \in {"qrep", "qadj"} /\ act'.s = s)]_vars
FlagDoesChange ==
  [][(Acked(t) /\ (act'.op = "query" \/ (act'.op \in {"qrep", "qadj"} /\ act'.s = t.act)))
       => t'.fl[t.act] # t.fl[t.act] /\ ~Acked(t')]_vars
\* each acknowledgement inverts at most once
InvertsOncePerAck == MaxAcks = 0 \/ \A s \in 0 .. 3 : g.inv[s] <= g.acks[s]
\* with a constant target: at most once while the flag persists (S0: per power-up), provided the
\* flag was turned before power was lost
OncePerPersistence == Cardinality(Targets) = 1 =>
   \A s \in 0 .. 3 : g.inv[s] <= 1 /\ (g.acks[s] > 1 => g.inv[s] < g.acks[s])
S0OncePerPowerUp == Cardinality(Targets) = 1 => g.acks[0] <= 1
NeverAckedAgain == [][Cardinality(Targets) = 1 /\ act'.op = "ack" /\ act'.reply = "epc" => g.inv[t.act] = 0]_vars

Proj(x) == [st |-> x.st, slot |-> x.slot, q |-> x.q, act |-> x.act, fl |-> x.fl]
EmitEdge == PrintT(ToJson([s |-> Proj(t), a |-> act', t |-> Proj(t')]))
EmitState == act.op # "init" \/ PrintT(ToJson([s0 |-> Proj(t)]))
=============================================================================
