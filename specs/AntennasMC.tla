----------------------------- MODULE AntennasMC -----------------------------
(* A reader powered in turns, its antennas switched by events of a kernel:   *)
(* sw is the moment of the pending switch (-1: none), ph the moment at which *)
(* the power changes next.  Events of one moment run in any order.           *)
EXTENDS Antennas, FiniteSets, Sequences, TLC, Json
CONSTANTS Ns, Ivs, Ons, Offs, MaxT
VARIABLES c, a, t, sw, ph, used, gap, act
vars == <<c, a, t, sw, ph, used, gap, act>>
Cfgs == [n : Ns, iv : Ivs, on : Ons, off : Offs, first : BOOLEAN]
RECURSIVE Attached(_)
Attached(n) == IF n = 0 THEN NoAntennas ELSE Attach(Attached(n - 1))
Init == /\ c \in Cfgs /\ a = Attached(c.n) /\ t = 0 /\ sw = -1 /\ ph = 0 /\ used = {} /\ gap = -1 /\ act = "init"
On == /\ ~a.on /\ ph <= MaxT
      /\ t' = ph /\ a' = PowerOn(a, c.first, ph) /\ ph' = ph + c.on /\ act' = "on"
      /\ sw' = (IF c.n > 1 THEN ph + c.iv ELSE -1) /\ used' = {a'.idx} /\ gap' = 0 /\ UNCHANGED c
Off == /\ a.on /\ (sw = -1 \/ ph <= sw)
       /\ t' = ph /\ a' = PowerOff(a) /\ ph' = ph + c.off /\ sw' = -1 /\ act' = "off" /\ UNCHANGED <<c, used, gap>>
Switch == /\ sw # -1 /\ sw <= ph
          /\ t' = sw /\ a' = Select(a) /\ sw' = sw + c.iv /\ act' = "switch"
          /\ used' = used \cup {a'.idx} /\ gap' = sw - a.since /\ UNCHANGED <<c, ph>>
Next == On \/ Off \/ Switch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
OneInForce == a.idx \in 0 .. (c.n - 1)
(* the closed form that judges recorded runs is what the events do           *)
AsScheduled == a.on => a.idx \in InForce(a, c.iv, t, 0)
OnlyWhilePowered == ~a.on => sw = -1
SingleStays == c.n = 1 => a.idx = 0 /\ sw = -1
FirstIfAsked == act = "on" /\ c.first => a.idx = 0
(* a powered phase uses as many antennas as it has room for                  *)
Room == 1 + (c.on - 1) \div c.iv
PhaseUses == act = "off" => LET k == Cardinality(used) IN
               IF c.n = 1 THEN k = 1 ELSE k \in {IF Room < c.n THEN Room ELSE c.n, IF 1 + c.on \div c.iv < c.n THEN 1 + c.on \div c.iv ELSE c.n}
Regular == act = "switch" => gap % c.iv = 0
(* nothing changes in the dark                                               *)
DarkKeeps == [][a'.idx # a.idx => act' = "switch" \/ (act' = "on" /\ c.first)]_vars
InTurn == [][act' = "switch" => a'.idx = (a.idx + 1) % c.n]_vars
(* without a fixed start and with phases that have room for a switch every    *)
(* antenna comes into force again and again                                   *)
Fair == \A k \in {0, 1, 2} : (c.n > k /\ ~c.first /\ c.on > c.iv) ~> (a.idx = k \/ ph > MaxT)
=============================================================================
