----------------------------- MODULE Gen2Reader -----------------------------
(* The reader: rounds of slots, commands, target flag.                      *)
(* c: configuration [switch, rpt, target, tid, words, session]              *)
EXTENDS Integers, Sequences
A == 0
B == 1
NewReader(c) == [st |-> "OFF", round |-> -1, slot |-> 0, size |-> 1, free |-> FALSE,
                 q |-> c.q, tgt |-> c.target, left |-> 0, rn |-> -1]
On(r) == r.st # "OFF"
R(r, cmd, ann) == [r |-> r, cmd |-> cmd, ann |-> ann, err |-> FALSE]
NoCmd == [op |-> "none"]
Error(r) == [r |-> r, cmd |-> NoCmd, ann |-> <<>>, err |-> TRUE]
QueryCmd(r) == [op |-> "query", target |-> r.tgt, q |-> r.q]
(* a new round with its target; first: the first one after power-up         *)
Open(r, c, first) ==
  LET u == IF ~c.switch THEN [r EXCEPT !.tgt = c.target]
           ELSE IF first THEN [r EXCEPT !.tgt = A, !.left = c.rpt - 1]
           ELSE IF r.left = 0 THEN [r EXCEPT !.tgt = 1 - @, !.left = c.rpt - 1]
           ELSE [r EXCEPT !.left = @ - 1] IN
  [u EXCEPT !.st = "QUERY", !.round = @ + 1, !.slot = 0, !.size = 2 ^ r.q, !.free = FALSE, !.rn = -1]
Rs(r) == <<<<"rs", r.round>>, <<"ss", r.round, 0>>>>
TurnOn(r, c) == LET u == Open(r, c, TRUE) IN R(u, QueryCmd(u), <<<<"pon">>>> \o Rs(u))
TurnOff(r, c) == R([r EXCEPT !.st = "OFF", !.rn = -1, !.slot = 0, !.size = 1, !.free = FALSE,
                              !.tgt = IF c.switch THEN A ELSE c.target, !.left = 0], NoCmd,
                   <<<<"poff">>, <<"sf", r.round, r.slot>>, <<"rf", r.round>>>>)
Within(r) == LET u == [r EXCEPT !.st = "QREP", !.slot = @ + 1, !.rn = -1] IN
             R(u, [op |-> "qrep"], <<<<"sf", r.round, r.slot>>, <<"ss", u.round, u.slot>>>>)
After(r, c) == LET u == Open(r, c, FALSE) IN
               R(u, QueryCmd(u), <<<<"sf", r.round, r.slot>>, <<"rf", r.round>>>> \o Rs(u))
(* the slot is over; once Q has changed the length of the round is open     *)
NextSlot(r, c) == IF r.free THEN {Within(r), After(r, c)}
                  ELSE IF r.slot + 1 < r.size THEN {Within(r)} ELSE {After(r, c)}
Timeout(r, c) == IF On(r) THEN NextSlot(r, c) ELSE {TurnOn(r, c)}
AckCmd(rn) == [op |-> "ack", rn |-> rn]
Reply(r, c, kind, rn) ==
  CASE ~On(r) -> {R(r, NoCmd, <<>>)}
    [] kind = "rn" /\ r.st \in {"QUERY", "QREP", "QADJUST"} ->
         {R([r EXCEPT !.st = "ACK", !.rn = rn], AckCmd(rn), <<>>)}
    [] kind = "epc" /\ r.st = "ACK" ->
         IF c.tid THEN {R([r EXCEPT !.st = "REQRN"], [op |-> "reqrn", rn |-> r.rn], <<>>)} ELSE NextSlot(r, c)
    [] kind = "handle" /\ r.st = "REQRN" ->
         {R([r EXCEPT !.st = "READ", !.rn = rn], [op |-> "read", rn |-> rn, cnt |-> c.words], <<>>)}
    [] kind = "data" /\ r.st = "READ" -> NextSlot(r, c)
    [] OTHER -> {Error(r)}
(* the reader has changed Q by u                                            *)
Adjust(r, u) == R([r EXCEPT !.st = "QADJUST", !.q = @ + u, !.free = TRUE, !.size = 1, !.rn = -1], [op |-> "qadj", u |-> u], <<>>)
CanAdjust(r) == r.st \in {"QUERY", "QREP"}
=============================================================================
