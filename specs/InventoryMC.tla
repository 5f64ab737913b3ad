----------------------------- MODULE InventoryMC -----------------------------
(* The composition: one reader, some tags, a medium that delivers every      *)
(* command to every powered tag, loses lone replies at will and delivers     *)
(* nothing from a collision, power cuts, arrivals and departures at any      *)
(* moment of a transaction.  One step is what happens between two commands.  *)
EXTENDS Gen2Reader, TLC, Json, FiniteSets
G == INSTANCE Gen2Tag
CONSTANTS Tags, Nums, CfgSet, Session, Adj, QRange, MaxRound, Power, Moves, Losses, Gaps, Late, Ghost
VARIABLES c, r, tg, air, qfp, act, g
vars == <<c, r, tg, air, qfp, act, g>>
Absent == [st |-> "ABSENT"]
Here(t) == {k \in Tags : t[k] # Absent}
P == [s \in 1 .. 3 |-> 2]
Cfg(k) == CASE k = 1 -> [switch |-> FALSE, rpt |-> 1, target |-> A, tid |-> FALSE, words |-> 0, q |-> 0]
            [] k = 2 -> [switch |-> FALSE, rpt |-> 1, target |-> A, tid |-> TRUE, words |-> 4, q |-> 1]
            [] k = 3 -> [switch |-> TRUE, rpt |-> 1, target |-> A, tid |-> TRUE, words |-> 4, q |-> 1]
            [] k = 4 -> [switch |-> TRUE, rpt |-> 2, target |-> A, tid |-> FALSE, words |-> 4, q |-> 1]
            [] k = 5 -> [switch |-> FALSE, rpt |-> 1, target |-> A, tid |-> FALSE, words |-> 0, q |-> 2]
            [] OTHER -> [switch |-> FALSE, rpt |-> 1, target |-> B, tid |-> TRUE, words |-> 4, q |-> 1]
Silence == [cmd |-> NoCmd, replies |-> {}]
NewTag(on) == [G!NewTag EXCEPT !.st = IF on THEN "READY" ELSE "OFF"] @@ [rn |-> 0]
Core(x) == [st |-> x.st, slot |-> x.slot, q |-> x.q, act |-> x.act, fl |-> x.fl, off |-> x.off, m |-> x.m, ext |-> x.ext]

(* a command on the air: every powered tag reacts, each in its own way       *)
Meant(cmd, x) ==
  CASE cmd.op = "query" -> [op |-> "query", s |-> Session, target |-> cmd.target, sel |-> TRUE, q |-> cmd.q, m |-> 1, ext |-> 0, k |-> -1]
    [] cmd.op = "qrep" -> [op |-> "qrep", s |-> Session]
    [] cmd.op = "qadj" -> [op |-> "qadj", s |-> Session, u |-> cmd.u, k |-> -1]
    [] OTHER -> [op |-> cmd.op, ok |-> x.rn # 0 /\ cmd.rn = x.rn]
React(x, cmd) ==
  UNION {IF o.reply \in {"rn", "handle"}
         THEN {[t |-> o.t @@ [rn |-> n], reply |-> o.reply, n |-> n] : n \in Nums}
         ELSE {[t |-> o.t @@ [rn |-> IF o.t.st \in {"READY", "OFF"} THEN 0 ELSE x.rn], reply |-> o.reply, n |-> 0]}
         : o \in G!Outcomes(Core(x), Meant(cmd, x))}
RECURSIVE Joint(_, _, _)
Joint(ks, t, cmd) ==
  IF ks = {} THEN {[k \in {} |-> 0]}
  ELSE LET k == CHOOSE x \in ks : TRUE IN
       {f @@ (k :> o) : f \in Joint(ks \ {k}, t, cmd), o \in React(t[k], cmd)}
On1(t) == {k \in Here(t) : t[k].st # "OFF"}
(* the reader goes on with the outcome o of its own; tags t                  *)
Send(o, t, a) ==
  /\ r' = o.r
  /\ IF o.cmd.op = "none"
     THEN /\ tg' = t /\ air' = Silence
          /\ act' = a @@ [cmd |-> o.cmd, err |-> o.err]
          /\ g' = g
     ELSE \E f \in Joint(On1(t), t, o.cmd) :
          /\ tg' = [k \in Tags |-> IF k \in DOMAIN f THEN f[k].t ELSE t[k]]
          /\ air' = [cmd |-> o.cmd, replies |-> {[k |-> k, r |-> f[k].reply, n |-> f[k].n] : k \in {x \in DOMAIN f : f[x].reply # "none"}}]
          /\ act' = a @@ [cmd |-> o.cmd, err |-> o.err]
          /\ g' = IF ~Ghost THEN g ELSE
                  [k \in Tags |-> IF k \in DOMAIN f /\ f[k].reply = "epc" THEN [g[k] EXCEPT !.acks = IF @ < 2 THEN @ + 1 ELSE @] ELSE g[k]]

Zero == [acks |-> 0]
Init == /\ c \in {Cfg(k) : k \in CfgSet}
        /\ qfp = c.q
        \* Late: all tags arrive during the very first Query
        /\ r = IF Late THEN TurnOn(NewReader(c), c).r ELSE NewReader(c)
        /\ tg \in (IF Moves THEN {[k \in Tags |-> Absent]} ELSE {[k \in Tags |-> NewTag(Late)]})
        /\ air = (IF Late THEN [cmd |-> TurnOn(NewReader(c), c).cmd, replies |-> {}] ELSE Silence)
        /\ act = [op |-> "init", cmd |-> NoCmd, err |-> FALSE]
        /\ g = [k \in Tags |-> Zero]
PowerUp(gap) == \E t \in {f \in [Tags -> UNION {IF tg[k] = Absent THEN {Absent} ELSE {u @@ [rn |-> 0] : u \in G!PowerOn(Core(tg[k]), gap, P)} : k \in Tags}] :
                            \A k \in Tags : f[k] \in (IF tg[k] = Absent THEN {Absent} ELSE {u @@ [rn |-> 0] : u \in G!PowerOn(Core(tg[k]), gap, P)})} :
  Send(TurnOn(r, c), t, [op |-> "on", gap |-> gap])
PowerDown ==
  LET o == TurnOff(r, c) IN
  /\ r' = o.r /\ air' = Silence
  /\ tg' = [k \in Tags |-> IF tg[k] = Absent THEN Absent ELSE [G!PowerOff(Core(tg[k]), 0) EXCEPT !.off = 0] @@ [rn |-> 0]]
  /\ act' = [op |-> "off", cmd |-> NoCmd, err |-> FALSE]
  /\ g' = [k \in Tags |-> IF Session = 0 THEN Zero ELSE g[k]]
Up == IF qfp < 15 THEN qfp + 1 ELSE 15
Down == IF qfp > 0 THEN qfp - 1 ELSE 0
Slotted == air.cmd.op \in {"query", "qrep"}
(* the transaction ends: a lone reply of a tag still there may be received   *)
Over(lost) ==
  LET n == Cardinality(air.replies)
      y == CHOOSE x \in air.replies : TRUE
      got == n = 1 /\ ~lost /\ y.k # 0
      \* a lone reply that is lost may count as none or not at all
      q2s == IF n = 0 THEN {Down} ELSE IF n > 1 THEN {Up} ELSE {qfp, Down} IN
  /\ lost => n = 1
  /\ \E q2 \in (IF got \/ ~Adj \/ ~Slotted THEN {qfp} ELSE q2s) :
     IF got
     THEN /\ qfp' = qfp
          /\ \E o \in Reply(r, c, y.r, y.n) : Send(o, tg, [op |-> "got", k |-> y.k, r |-> y.r])
     ELSE IF q2 # qfp
     THEN /\ q2 \in QRange
          /\ qfp' = q2
          /\ Send(Adjust(r, q2 - qfp), tg, [op |-> "over", lost |-> lost])
     ELSE /\ qfp' = qfp
          /\ \E o \in Timeout(r, c) : Send(o, tg, [op |-> "over", lost |-> lost])
Arrive(k) == /\ tg[k] = Absent
             /\ tg' = [tg EXCEPT ![k] = NewTag(On(r))]
             /\ act' = [op |-> "arrive", k |-> k, cmd |-> NoCmd, err |-> FALSE]
             /\ UNCHANGED <<r, air, g>>
Depart(k) == /\ tg[k] # Absent
             /\ tg' = [tg EXCEPT ![k] = Absent]
             /\ act' = [op |-> "depart", k |-> k, cmd |-> NoCmd, err |-> FALSE]
             /\ g' = [g EXCEPT ![k] = Zero]
             \* its reply, if any, still takes its time but is nobody's
             /\ air' = [air EXCEPT !.replies = {IF y.k = k THEN [y EXCEPT !.k = 0] ELSE y : y \in @}]
             /\ r' = r
Next == /\ c' = c
        /\ \/ ~On(r) /\ qfp' = qfp /\ \E gap \in Gaps : PowerUp(gap)
           \/ On(r) /\ (Over(FALSE) \/ (Losses /\ Over(TRUE)))
           \/ Power /\ On(r) /\ qfp' = qfp /\ PowerDown
           \/ Moves /\ qfp' = qfp /\ \E k \in Tags : Arrive(k) \/ Depart(k)
Spec == Init /\ [][Next]_vars
Bound == r.round <= MaxRound

(* ---- what the system exists to provide -------------------------------- *)
ReaderNeverConfused == ~act.err
\* C18
AddressedAnswersAlone == air.cmd.op \in {"ack", "reqrn", "read"} => Cardinality(air.replies) <= 1
OneTagAtATime == Cardinality({k \in Here(tg) : tg[k].st \in {"ACKNOWLEDGED", "SECURED"}}) <= 1
\* the number the reader uses was sent by a lone replier
AckFollowsLoneReply == [][act'.cmd.op = "ack" => \E y \in air.replies : air.replies = {y} /\ y.r = "rn" /\ y.n = act'.cmd.rn]_vars
IdentifiesLoneReplier == [][(act'.op = "got" /\ act'.r = "epc") => \E y \in air.replies : air.replies = {y} /\ y.k = act'.k /\ tg[y.k].st \in {"ACKNOWLEDGED", "SECURED"}]_vars
MemoryOfTheIdentified == [][(act'.op = "got" /\ act'.r = "data") => tg[act'.k].st = "SECURED"]_vars
CollisionsAdvanceNobody == [][(act'.op = "over" /\ Cardinality(air.replies) > 1) => act'.cmd.op \in {"query", "qrep", "qadj"}]_vars
\* C22
OffIsSilent == ~On(r) => air = Silence /\ \A k \in Here(tg) : tg[k].st = "OFF"
OnPowersEveryone == On(r) => air.cmd.op # "none" /\ \A k \in Here(tg) : tg[k].st # "OFF"
\* C15: constant target
AckedOncePerPowerUp == ~c.switch /\ Ghost /\ Session = 0 => \A k \in Here(tg) : g[k].acks <= 1
AckedOnceWhileKept == ~c.switch /\ Ghost /\ Session # 0 /\ Gaps = {1} /\ ~Power => \A k \in Here(tg) : g[k].acks <= 1
\* C20: everybody in the round has the reader's Q
SameQ == \A k \in Here(tg) : tg[k].st \in {"ARBITRATE", "REPLY"} => tg[k].q = r.q
EstimateIsQ == Adj => qfp = r.q
\* C16: answers in slot zero only, and all of them on the air
ReplyingTags == air.cmd.op \in {"query", "qrep", "qadj"} =>
  \A k \in Here(tg) : tg[k].st = "REPLY" => \E y \in air.replies : y.k = k /\ y.r = "rn"

Tg(t) == [k \in Tags |-> IF t[k] = Absent THEN "absent" ELSE t[k]]
St == [c |-> c.switch, cq |-> c.q, rpt |-> c.rpt, tid |-> c.tid, r |-> [r EXCEPT !.round = IF @ < 0 THEN 0 ELSE 1, !.slot = IF r.free THEN 0 ELSE @], tg |-> Tg(tg), air |-> air, qfp |-> qfp]
View == <<St, act.err>>
EmitEdge == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitState == act.op # "init" \/ PrintT(ToJson([s0 |-> St]))
=============================================================================
