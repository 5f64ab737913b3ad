------------------------------ MODULE Registry ------------------------------
(* Packages found below pysim.models and what becomes of them.               *)
EXTENDS Integers, Sequences, FiniteSets
Usable == {"command", "group", "alias", "package_cli", "redefined"}
\* everything else that is a module: no cli.py, no cli_run, cli_run no command, cli.py raising when imported
Unusable == {"no_cli", "plain_module", "no_cli_run", "function", "none", "class", "needs_missing", "bad_import", "syntax", "raises", "exits", "runs_itself", "bad_init"}
Ignored == {"no_init", "text_file"}           \* not importable modules at all
Kinds == Usable \cup Unusable \cup Ignored
\* p: packages in alphabetical order, [name, kind]
RECURSIVE Listed(_)
Listed(p) == IF p = <<>> THEN <<>>
             ELSE (IF Head(p).kind \in Usable THEN <<Head(p).name>> ELSE <<>>) \o Listed(Tail(p))
Runs(p, name) == \E k \in 1 .. Len(p) : p[k].name = name /\ p[k].kind \in Usable
Reported(p) == Cardinality({k \in 1 .. Len(p) : p[k].kind \in Unusable})
=============================================================================
