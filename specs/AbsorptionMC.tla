---------------------------- MODULE AbsorptionMC ----------------------------
(* The closed forms used as oracle for the analytical model are solutions   *)
(* of the first-step equations of the chain                                 *)
(*   E[k] = t[k] + p[k] E[k+1] + (1 - p[k]) E[b],  E[absorbed] = 0,         *)
(* where b = 1 in scenario 1 and b = k otherwise; p[k] = a[k] / D.          *)
EXTENDS Integers, Sequences
CONSTANTS D, MaxT
VARIABLES a, t
vars == <<a, t>>
Init == a \in [1 .. 4 -> 1 .. D] /\ t \in [1 .. 4 -> 0 .. MaxT]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == a[1] * a[2] * a[3] * a[4]
Num1 == D * (t[1] * D * D * D + a[1] * t[2] * D * D + a[1] * a[2] * t[3] * D + a[1] * a[2] * a[3] * t[4])
\* E1 = Num1 / A; Ek scaled by A D^(5-k)
E4 == t[4] * A * D + (D - a[4]) * Num1
E3 == t[3] * A * D * D + a[3] * E4 + (D - a[3]) * Num1 * D
E2 == t[2] * A * D * D * D + a[2] * E3 + (D - a[2]) * Num1 * D * D
E1 == t[1] * A * D * D * D * D + a[1] * E2 + (D - a[1]) * Num1 * D * D * D
Scenario1 == E1 = Num1 * D * D * D * D
\* visits of state k are 1 / (p[k] ... p[4]): sum of t[k] times visits
Scenario1Visits == Num1 = t[1] * D * D * D * D + t[2] * D * D * D * a[1]
                          + t[3] * D * D * a[1] * a[2] + t[4] * D * a[1] * a[2] * a[3]
\* scenarios 2 and 3: E = sum of t[k] D / a[k] solves E[k] = t[k] + p E[k+1] + (1 - p) E[k]
Staying == LET S == t[1] * D * a[2] + t[2] * D * a[1]      \* two states, scaled by a1 a2
               Last == t[2] * D                            \* scaled by a2
           IN a[1] * S * 1 = a[1] * (t[1] * D * a[2] + a[1] * Last)
=============================================================================
