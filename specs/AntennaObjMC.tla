---------------------------- MODULE AntennaObjMC ----------------------------
(* The antennas of a reader alone, every call in every state; for replay.    *)
EXTENDS Antennas, TLC, Json
CONSTANTS MaxN
VARIABLES a, first, act
vars == <<a, first, act>>
Init == a = NoAntennas /\ first \in BOOLEAN /\ act = [op |-> "init"]
Keep == UNCHANGED first
Next == \/ a.n < MaxN /\ a' = Attach(a) /\ act' = [op |-> "attach", r |-> a.n] /\ Keep
        \/ a' = Select(a) /\ act' = [op |-> "select", r |-> IF a.n = 0 THEN -1 ELSE Next1(a)] /\ Keep
        \/ \E k \in 0 .. (a.n - 1) : UNCHANGED a /\ act' = [op |-> "get", k |-> k, r |-> k] /\ Keep
        \/ ~a.on /\ a.n > 0 /\ a' = PowerOn(a, first, 0) /\ act' = [op |-> "on", r |-> -2] /\ Keep
        \/ a.on /\ a' = PowerOff(a) /\ act' = [op |-> "off", r |-> -2] /\ Keep
Spec == Init /\ [][Next]_vars
Valid == a.n > 0 => a.idx \in 0 .. (a.n - 1)
View == <<[a EXCEPT !.base = 0], first>>
State(x, f) == [n |-> x.n, idx |-> x.idx, on |-> x.on, first |-> f]
EmitEdge == PrintT(ToJson([s |-> State(a, first), a |-> act', t |-> State(a', first')]))
EmitState == IF act.op = "init" THEN PrintT(ToJson([s0 |-> State(a, first)])) ELSE TRUE
=============================================================================
