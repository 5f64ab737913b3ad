------------------------------ MODULE ConfigMC ------------------------------
(* The routing of Config over an abstract alphabet: every combination of     *)
(* changed settings and explicit arguments.  Each argument reaches exactly   *)
(* the attributes of its own meaning, each setting reaches a component, and  *)
(* no attribute has two sources.                                             *)
EXTENDS Config, FiniteSets, TLC
CONSTANT Most
VARIABLES arg, set
Args == {Map[j][3] : j \in 1 .. Len(Map)} \ {""}
Sets == {Map[j][2] : j \in 1 .. Len(Map)}
Init == arg \in {a \in SUBSET Args : Cardinality(a) <= Most \/ a = Args} /\ set \in {{x} : x \in Sets}
Spec == Init /\ [][FALSE]_<<arg, set>>
S == [f \in Sets |-> IF f \in set THEN "changed" ELSE "default"]
K == [a \in arg |-> "given"]
B == Plain(S, K)
Src(a) == LET j == CHOOSE j \in 1 .. Len(Map) : Map[j][1] = a IN Map[j]
Unique == Cardinality({Map[j][1] : j \in 1 .. Len(Map)}) = Len(Map)
Precedence == \A a \in DOMAIN B : (B[a] = "given") <=> (Src(a)[3] \in arg)
NothingElse == \A a \in DOMAIN B : (B[a] = "changed") <=> (Src(a)[3] \notin arg /\ Src(a)[2] \in set)
\* one argument never stands for two different settings, nor one setting for two arguments
OneMeaning == \A j, h \in 1 .. Len(Map) :
  /\ Map[j][3] # "" /\ Map[j][3] = Map[h][3] => Map[j][2] = Map[h][2]
  /\ Map[j][2] = Map[h][2] => Map[j][3] = Map[h][3]
=============================================================================
