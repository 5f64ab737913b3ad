------------------------------ MODULE Antennas ------------------------------
(* The antennas of a reader: n of them, idx in force; on while powered,      *)
(* since the moment of power-on, base the antenna in force at that moment.   *)
EXTENDS Integers
NoAntennas == [n |-> 0, idx |-> 0, on |-> FALSE, since |-> 0, base |-> 0]
Attach(a) == [a EXCEPT !.n = @ + 1]
Next1(a) == IF a.n = 0 THEN a.idx ELSE (a.idx + 1) % a.n
Select(a) == [a EXCEPT !.idx = Next1(a)]
(* first: every power-on starts again with antenna 0                         *)
PowerOn(a, first, t) == LET k == IF first THEN 0 ELSE a.idx IN
                        [a EXCEPT !.on = TRUE, !.since = t, !.base = k, !.idx = k]
PowerOff(a) == [a EXCEPT !.on = FALSE]
NonNeg(x) == IF x < 0 THEN 0 ELSE x
(* how often the antenna may have been switched at t: once per interval      *)
(* since power-on; a switch that is due at t itself may be yet to come       *)
Turns(a, iv, t, tol) ==
  IF a.n < 2 THEN {0}
  ELSE NonNeg((t - a.since - tol - 1) \div iv) .. NonNeg((t - a.since + tol) \div iv)
InForce(a, iv, t, tol) == IF a.n < 2 THEN {a.base} ELSE {(a.base + k) % a.n : k \in Turns(a, iv, t, tol)}
=============================================================================
