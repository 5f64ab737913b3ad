----------------------------- MODULE RegistryMC -----------------------------
(* The scan of the packages, one at a time, and the command line on top of   *)
(* it: whatever stands beside a usable package, it is offered.               *)
EXTENDS Registry, TLC
CONSTANTS Most, SomeKinds
VARIABLES pkgs, at, list, cmds, reports, ran
vars == <<pkgs, at, list, cmds, reports, ran>>
Names == <<"a", "b", "c", "d", "e">>
Init == /\ pkgs \in {[k \in 1 .. n |-> [name |-> Names[k], kind |-> f[k]]] : n \in 0 .. Most, f \in [1 .. Most -> SomeKinds]}
        /\ at = 1 /\ list = <<>> /\ cmds = {} /\ reports = 0 /\ ran = "nothing"
Scan == /\ at <= Len(pkgs) /\ at' = at + 1
        /\ IF pkgs[at].kind \in Usable THEN list' = Append(list, pkgs[at].name) /\ cmds' = cmds \cup {pkgs[at].name} /\ reports' = reports
           ELSE list' = list /\ cmds' = cmds /\ reports' = reports + (IF pkgs[at].kind \in Unusable THEN 1 ELSE 0)
        /\ UNCHANGED <<pkgs, ran>>
Run(n) == at > Len(pkgs) /\ ran = "nothing" /\ ran' = (IF n \in cmds THEN n ELSE "error") /\ UNCHANGED <<pkgs, at, list, cmds, reports>>
Next == Scan \/ \E k \in 1 .. Len(Names) : Run(Names[k])
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan)
Done == at > Len(pkgs)
ListIsRunnable == cmds = {list[k] : k \in 1 .. Len(list)} /\ Cardinality(cmds) = Len(list)
ListedExactly == Done => list = Listed(pkgs)
RunsExactly == Done => \A k \in 1 .. Len(Names) : (Names[k] \in cmds) <=> Runs(pkgs, Names[k])
ReportsAll == Done => reports = Reported(pkgs)
OnlyAsked == ran \in {"nothing", "error"} \cup cmds
Ends == <>Done
=============================================================================
