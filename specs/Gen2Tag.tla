------------------------------ MODULE Gen2Tag ------------------------------
(* One Gen2 tag: states, slot counter, inventoried flags, power.            *)
(* Outcomes(t, c) is the set of [t, reply] allowed for a command heard by t. *)
EXTENDS Integers, Sequences
Dead == -1                       \* a slot counter that can no longer reach zero
NoSession == 9
Invert(f) == 1 - f               \* 0 is A, 1 is B
NewTag == [st |-> "OFF", slot |-> Dead, q |-> 0, act |-> NoSession,
           fl |-> [s \in 0 .. 3 |-> 0], off |-> 0, m |-> 1, ext |-> 0]
Acked(t) == t.st \in {"ACKNOWLEDGED", "SECURED"}
InRound(t) == t.st \in {"ARBITRATE", "REPLY"}
O(t, r) == [t |-> t, reply |-> r]
Silent(t) == {O(t, "none")}
Settle(t) == IF Acked(t) THEN [t EXCEPT !.fl[t.act] = Invert(@)] ELSE t
Ready(t) == [t EXCEPT !.st = "READY", !.slot = Dead, !.q = 0]
Slots(q) == 0 .. (2 ^ q - 1)
InSlot(t, k) == [t EXCEPT !.st = IF k = 0 THEN "REPLY" ELSE "ARBITRATE", !.slot = k]
Answer(t, k) == O(InSlot(t, k), IF k = 0 THEN "rn" ELSE "none")
Choose(t, q) == {Answer([t EXCEPT !.q = q], k) : k \in Slots(q)}
(* what a choice of slot must be among, without enumerating 2^15 outcomes    *)
ChoiceOf(t, q, k) == IF k \in Slots(q) THEN {Answer([t EXCEPT !.q = q], k)} ELSE Choose(t, 0)

(* c.k is the slot an observer saw, or -1 when all choices are wanted        *)
Draw(t, q, k) == IF k < 0 THEN Choose(t, q) ELSE ChoiceOf(t, q, k)
Query(t, c) ==
  LET u == Settle(t) IN
  IF u.fl[c.s] = c.target /\ c.sel
  THEN Draw([u EXCEPT !.act = c.s, !.m = c.m, !.ext = c.ext], c.q, c.k)
  ELSE Silent(Ready(u))
QueryRep(t, c) ==
  IF c.s # t.act \/ t.st = "READY" THEN Silent(t)
  ELSE IF Acked(t) THEN Silent(Ready(Settle(t)))
  ELSE IF t.st = "ARBITRATE" /\ t.slot > 0 THEN {Answer(t, t.slot - 1)}
  ELSE Silent([t EXCEPT !.st = "ARBITRATE", !.slot = Dead])
QueryAdjust(t, c) ==
  IF c.s # t.act \/ t.st = "READY" THEN Silent(t)
  ELSE IF Acked(t) THEN Silent(Ready(Settle(t)))
  ELSE IF t.q + c.u \in 0 .. 15 THEN Draw(t, t.q + c.u, c.k)
  \* the step would leave the range: Q stays, the slot is kept or redrawn
  ELSE Draw(t, t.q, c.k) \cup
       (IF t.st = "ARBITRATE" THEN Silent(t) ELSE {Answer(t, 0)})
Ack(t, c) ==
  IF t.st # "REPLY" THEN Silent(t)
  ELSE IF c.ok THEN {O([t EXCEPT !.st = "ACKNOWLEDGED"], "epc")}
  ELSE Silent([t EXCEPT !.st = "ARBITRATE", !.slot = Dead])
ReqRN(t, c) == IF Acked(t) /\ c.ok THEN {O([t EXCEPT !.st = "SECURED"], "handle")} ELSE Silent(t)
Read(t, c) == IF t.st = "SECURED" /\ c.ok THEN {O(t, "data")} ELSE Silent(t)
Outcomes(t, c) ==
  IF t.st = "OFF" THEN Silent(t)
  ELSE CASE c.op = "query" -> Query(t, c)
         [] c.op = "qrep" -> QueryRep(t, c)
         [] c.op = "qadj" -> QueryAdjust(t, c)
         [] c.op = "ack" -> Ack(t, c)
         [] c.op = "reqrn" -> ReqRN(t, c)
         [] OTHER -> Read(t, c)

PowerOff(t, now) == [Ready(t) EXCEPT !.st = "OFF", !.act = NoSession, !.off = now]
(* p[s]: persistence of session s; exactly at the limit both are allowed    *)
PowerOn(t, now, p) ==
  {[t EXCEPT !.st = "READY", !.off = 0, !.fl = f] :
     f \in [0 .. 3 -> {0, 1}] \cap
       {[s \in 0 .. 3 |-> IF s = 0 \/ now - t.off > p[s] THEN 0 ELSE t.fl[s]],
        [s \in 0 .. 3 |-> IF s = 0 \/ now - t.off >= p[s] THEN 0 ELSE t.fl[s]]}}
(* pw: received power, none = -9999; sens: sensitivity                      *)
SetPower(t, now, p, pw, sens) ==
  IF t.st = "OFF" THEN (IF pw > sens THEN PowerOn(t, now, p) ELSE {t})
  ELSE IF pw < sens THEN {PowerOff(t, now)} ELSE {t}
=============================================================================
