------------------------------ MODULE ReaderMC ------------------------------
EXTENDS Gen2Reader, TLC, Json
CONSTANTS Cfgs, Qs, MaxRound, Ghost
VARIABLES c, r, act, g
vars == <<c, r, act, g>>
Cfg(k) == CASE k = 1 -> [switch |-> FALSE, rpt |-> 1, target |-> A, tid |-> FALSE, words |-> 0]
            [] k = 2 -> [switch |-> FALSE, rpt |-> 2, target |-> B, tid |-> TRUE, words |-> 4]
            [] k = 3 -> [switch |-> TRUE, rpt |-> 1, target |-> A, tid |-> TRUE, words |-> 2]
            [] k = 4 -> [switch |-> TRUE, rpt |-> 2, target |-> B, tid |-> FALSE, words |-> 0]
            [] OTHER -> [switch |-> TRUE, rpt |-> 3, target |-> A, tid |-> FALSE, words |-> 0]
(* g: targets of the Queries since power-up; open slot; rounds started       *)
Init == /\ c \in {Cfg(k) @@ [q |-> q] : k \in Cfgs, q \in Qs}
        /\ r = NewReader(c) /\ act = [op |-> "init", cmd |-> NoCmd, err |-> FALSE]
        /\ g = [tg |-> [n |-> 0, last |-> 9, ok |-> TRUE], open |-> <<>>, ok |-> TRUE, ended |-> 0, slots |-> 0, adj |-> FALSE]
(* announcements come properly nested and numbered                          *)
One(h, a) ==
  CASE a[1] = "rs" -> [h EXCEPT !.ok = @ /\ h.open = <<>> /\ a[2] = h.ended, !.open = <<a[2]>>, !.slots = 0]
    [] a[1] = "ss" -> [h EXCEPT !.ok = @ /\ Len(h.open) = 1 /\ h.open[1] = a[2] /\ a[3] = h.slots,
                                !.open = <<a[2], a[3]>>, !.slots = @ + 1]
    [] a[1] = "sf" -> [h EXCEPT !.ok = @ /\ Len(h.open) = 2 /\ h.open = <<a[2], a[3]>>, !.open = <<a[2]>>]
    [] a[1] = "rf" -> [h EXCEPT !.ok = @ /\ h.open = <<a[2]>>, !.open = <<>>, !.ended = @ + 1]
    [] OTHER -> h
RECURSIVE Fold(_, _)
Fold(h, s) == IF s = <<>> THEN h ELSE Fold(One(h, Head(s)), Tail(s))
(* consecutive Queries with the same target since power-up                   *)
Seen(h, tg, first) ==
  IF first THEN [n |-> 1, last |-> tg, ok |-> h.ok /\ (c.switch => tg = A)]
  ELSE IF tg = h.last THEN [h EXCEPT !.n = IF c.switch THEN @ + 1 ELSE 1, !.ok = @ /\ (c.switch => h.n < c.rpt)]
  ELSE [n |-> 1, last |-> tg, ok |-> h.ok /\ c.switch /\ h.n = c.rpt]
Do(o, a) ==
  /\ r' = o.r /\ act' = a @@ [cmd |-> o.cmd, err |-> o.err]
  /\ g' = IF ~Ghost THEN g ELSE
          LET h == Fold(g, o.ann) IN
          [h EXCEPT !.tg = IF o.cmd.op # "query" THEN @ ELSE Seen(@, o.cmd.target, ~On(r)),
                    !.adj = IF o.cmd.op = "query" THEN FALSE ELSE IF o.cmd.op = "qadj" THEN TRUE ELSE @]
  /\ UNCHANGED c
Next == /\ ~act.err
        /\ \/ ~On(r) /\ Do(TurnOn(r, c), [op |-> "on"])
           \/ On(r) /\ Do(TurnOff(r, c), [op |-> "off"])
           \/ On(r) /\ \E o \in Timeout(r, c) : Do(o, [op |-> "timeout"])
           \/ \E k \in {"rn", "epc", "handle", "data"} : \E o \in Reply(r, c, k, 7) : Do(o, [op |-> "reply", k |-> k])
           \/ \E u \in {-1, 1} : CanAdjust(r) /\ r.q + u \in Qs /\ Do(Adjust(r, u), [op |-> "adjust", u |-> u])
Spec == Init /\ [][Next]_vars
Bound == r.round <= MaxRound /\ r.slot <= 4
\* C16
Announced == g.ok
OpenSlotIsCurrent == On(r) /\ Ghost => g.open = <<r.round, r.slot>>
FullRounds == [][(Ghost /\ act'.cmd.op = "query" /\ act'.op # "on" /\ ~g.adj) => g.slots = 2 ^ r.q]_vars
AddressesTheReplier == [][act'.cmd.op \in {"ack", "reqrn", "read"} => act'.cmd.rn = 7]_vars
\* C17
Targets == g.tg.ok /\ (~c.switch => g.tg.last \in {9, c.target})
Proj(x) == [st |-> x.st, slot |-> x.slot, size |-> x.size, free |-> x.free, q |-> x.q, tgt |-> x.tgt, left |-> x.left]
View == <<c, Proj(r), r.round >= 0, act.err>>
St == [c |-> c, r |-> Proj(r), x |-> r.round >= 0, e |-> act.err]
\* errors end a run: a few states are enough
EmitEdge == IF act'.err /\ (r.slot > 1 \/ r.free \/ r.q # 1) THEN TRUE ELSE PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitState == act.op # "init" \/ PrintT(ToJson([s0 |-> St]))
=============================================================================
